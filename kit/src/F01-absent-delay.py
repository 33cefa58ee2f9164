PROP = "F01"
NEEDS = "a connection with a delay on which a port is absent, and a reaction that sends on it at a later microstep"
BREAKS = "a port is announced as absent at a tag at which a message may still be sent to it"
EDITS = [("core/federated/federate.c", "tag_t current_message_intended_tag = lf_delay_strict(env->current_tag, additional_delay);",
          "tag_t current_message_intended_tag = lf_delay_tag(env->current_tag, additional_delay);")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <sys/socket.h>
static int p[2];
static void setup(void) { mkself(); }
int main() {
  alarm(20);
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->current_tag = (tag_t){5000, 0};
  e->stop_tag = FOREVER_TAG;
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.socket_TCP_RTI = p[0];
  unsigned char m[64], h[64];
  lf_send_port_absent_to_federate(e, 300, 4, 1);
  CHECK(read_from_socket(p[1], 17, m) == 0 && m[0] == MSG_TYPE_PORT_ABSENT, "no message");
  /* a reaction may send a message at the next microstep still */
  e->current_tag.microstep = 1;
  lf_send_tagged_message(e, 300, MSG_TYPE_TAGGED_MESSAGE, 4, 1, "b", 1, (unsigned char*)"x");
  CHECK(read_from_socket(p[1], 22, h) == 0 && h[0] == MSG_TYPE_TAGGED_MESSAGE, "no message");
  CHECK(lf_tag_compare(extract_tag(m + 5), extract_tag(h + 9)) < 0, "absent at the tag of a message");
  _exit(0);
}
"""
