PROP = "F01"
NEEDS = "a message whose tag is that of the end of execution"
BREAKS = "a message that is sent at the stop tag does not reach its receiver"
EDITS = [("core/federated/federate.c", """  if (lf_is_tag_after_stop_tag(env, current_message_intended_tag)) {
    // Message tag""", """  if (current_message_intended_tag.time >= env->stop_tag.time) {
    // Message tag""")]
CONF = "fed-dec"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <sys/socket.h>
static int p[2];
static void setup(void) { mkself(); }
int main() {
  alarm(20);
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->current_tag = e->stop_tag = (tag_t){5000, 3};
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.sockets_for_outbound_p2p_connections[1] = p[0];
  int r = lf_send_tagged_message(e, NEVER, MSG_TYPE_P2P_TAGGED_MESSAGE, 4, 1, "b", 1, (unsigned char*)"x");
  unsigned char h[64];
  CHECK(r == 0 && read_from_socket(p[1], 22, h) == 0, "not sent: %d", r);
  e->current_tag.microstep++;
  CHECK(lf_send_tagged_message(e, NEVER, MSG_TYPE_P2P_TAGGED_MESSAGE, 4, 1, "b", 1, (unsigned char*)"x") != 0, "sent after the end");
  _exit(0);
}
"""
