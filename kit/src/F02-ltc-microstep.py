PROP = "F02"
NEEDS = "two microsteps of one time that the coordinator waits to have confirmed"
BREAKS = "the completion of a tag is not confirmed to the coordinator if another tag with the same time was"
EDITS = [("core/federated/federate.c", "  if (lf_tag_compare(_fed.last_sent_LTC, tag_to_send) >= 0) {\n    return; // Already", "  if (_fed.last_sent_LTC.time >= tag_to_send.time) {\n    return; // Already")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <poll.h>
#include <sys/socket.h>
static int p[2];
static void setup(void) { mkself(); }
int main() {
  alarm(20);
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->need_to_send_LTC = true;
  _fed.last_sent_LTC = NEVER_TAG;
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.socket_TCP_RTI = p[0];
  for (unsigned i = 0; i < 3; i++) {
    unsigned char m[13];
    struct pollfd f = {p[1], POLLIN, 0};
    lf_latest_tag_confirmed((tag_t){7000, i});
    CHECK(poll(&f, 1, 100) == 1 && read_from_socket(p[1], 13, m) == 0, "not confirmed: %u", i);
    CHECK(extract_tag(m + 1).microstep == i, "another tag");
  }
  _exit(0);
}
"""
