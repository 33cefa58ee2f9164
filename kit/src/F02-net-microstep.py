PROP = "F02"
NEEDS = "an event that is put on the queue at an earlier microstep of the time at which the next one was, while its federate waits for a grant"
BREAKS = "the coordinator does not get to know about the earlier event, and may not ever grant its tag"
EDITS = [("core/federated/federate.c", "if (lf_tag_compare(next_tag, tag) != 0) {", "if (next_tag.time != tag.time) {")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <pthread.h>
#include <poll.h>
#include <sys/socket.h>
static int p[2];
static void setup(void) { mkself(); }
static environment_t* e;
static void* asks(void* x) {
  pthread_mutex_lock((pthread_mutex_t*)&e->mutex);
  lf_send_next_event_tag(e, (tag_t){9000, 5}, true);
  return x;
}
static int net(tag_t* t) {
  struct pollfd f = {p[1], POLLIN, 0};
  unsigned char m[13];
  if (poll(&f, 1, 2000) != 1 || read_from_socket(p[1], 13, m) != 0 || m[0] != MSG_TYPE_NEXT_EVENT_TAG) return 0;
  *t = extract_tag(m + 1);
  return 1;
}
int main() {
  alarm(20);
  lf_create_environments();
  e = &envs_[0];
  init_fed_(e);
  e->stop_tag = FOREVER_TAG;
  e->current_tag = (tag_t){5000, 0};
  _fed.has_upstream = true; _fed.has_downstream = true;
  _fed.last_TAG = (tag_t){5000, 0};
  _fed.min_delay_from_physical_action_to_federate_output = NEVER;
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.socket_TCP_RTI = p[0];
  event_t* v = _lf_create_dummy_events(e, (tag_t){9000, 5});
  pqueue_tag_insert(e->event_q, (pqueue_tag_element_t*)v);
  pthread_t t;
  pthread_create(&t, NULL, asks, NULL);
  tag_t a, b;
  CHECK(net(&a) && a.time == 9000 && a.microstep == 5, "first");
  pthread_mutex_lock((pthread_mutex_t*)&e->mutex);
  v = _lf_create_dummy_events(e, (tag_t){9000, 2});
  pqueue_tag_insert(e->event_q, (pqueue_tag_element_t*)v);
  lf_cond_broadcast(&e->event_q_changed);
  pthread_mutex_unlock((pthread_mutex_t*)&e->mutex);
  CHECK(net(&b) && b.time == 9000 && b.microstep == 2, "nothing was announced");
  _exit(0);
}
"""
