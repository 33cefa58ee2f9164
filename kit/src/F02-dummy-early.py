PROP = "F02"
NEEDS = "a provisional grant for a later microstep of the current time"
BREAKS = "a federate that is provisionally granted a later microstep does not get to it, nor does it confirm it"
EDITS = [("core/federated/federate.c", "  if (lf_tag_compare(env->current_tag, PTAG) == 0) {\n    // The current", "  if (env->current_tag.time == PTAG.time) {\n    // The current")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <pthread.h>
#include <sys/socket.h>
static int p[2];
static void setup(void) { mkself(); }
int main() {
  alarm(20);
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->stop_tag = FOREVER_TAG;
  e->current_tag = (tag_t){5000, 0};
  _fed.last_TAG = (tag_t){5000, 0};
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.socket_TCP_RTI = p[0];
  unsigned char w[9] = {MSG_TYPE_TIMESTAMP};
  encode_int64(5000, w + 1);
  CHECK(write(p[1], w, 9) == 9, "write");
  lf_synchronize_with_other_federates();
  unsigned char m[13] = {MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT};
  encode_tag(m + 1, (tag_t){5000, 2});
  CHECK(write(p[1], m, 13) == 13, "write");
  usleep(300000);
  pthread_mutex_lock((pthread_mutex_t*)&e->mutex);
  CHECK(_fed.last_TAG.microstep == 2, "not taken");
  pqueue_tag_element_t* v = pqueue_tag_peek(e->event_q);
  CHECK(v && v->tag.time == 5000 && v->tag.microstep == 2, "no event");
  _exit(0);
}
"""
