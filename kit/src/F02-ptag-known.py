PROP = "F02"
NEEDS = "a provisional grant at a tag at which an upstream federate in a cycle still sends a message"
BREAKS = "ports are taken as absent on a provisional grant, so that reactions do not wait for their messages"
EDITS = [("core/federated/federate.c", """  // Notify level advance thread which is blocked.
  lf_update_max_level(_fed.last_TAG""", """  // Nothing earlier can arrive any more.
  update_last_known_status_on_input_ports(PTAG, env);
  // Notify level advance thread which is blocked.
  lf_update_max_level(_fed.last_TAG""")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <pthread.h>
#include <sys/socket.h>
static int p[2];
static void nop(void* s) {}
static void setup(void) {}
int main() {
  alarm(20);
  self_t* s = mkself();
  act_t* a = mknet(s, 0, 4, 0, 1);
  on(&a->t, mkreaction(s, nop, 2));
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->stop_tag = FOREVER_TAG;
  e->current_tag = (tag_t){5000, 0};
  _fed.last_TAG = (tag_t){5000, 0};
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.socket_TCP_RTI = p[0];
  unsigned char w[9] = {MSG_TYPE_TIMESTAMP};
  encode_int64(5000, w + 1);
  CHECK(write(p[1], w, 9) == 9, "write");
  lf_synchronize_with_other_federates();
  unsigned char m[13] = {MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT};
  encode_tag(m + 1, (tag_t){5000, 2});
  CHECK(write(p[1], m, 13) == 13, "write");
  usleep(300000);
  pthread_mutex_lock((pthread_mutex_t*)&e->mutex);
  CHECK(_fed.last_TAG.microstep == 2, "not taken");
  CHECK(lf_tag_compare(a->t.last_known_status_tag, (tag_t){5000, 2}) < 0, "known");
  _exit(0);
}
"""
