PROP = "F04"
NEEDS = 'a message with a microstep other than zero, at a later time'
BREAKS = 'it is delivered at microstep zero of its time'
EDITS = [("core/federated/federate.c", '    return_value = _lf_schedule_at_tag(env, trigger, tag, token);\n  }\n  trigger->intended_tag', '    return_value = extra_delay > 0 ? lf_schedule_trigger(env, trigger, extra_delay, token)\n                                   : _lf_schedule_at_tag(env, trigger, tag, token);\n  }\n  trigger->intended_tag')]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
#include <pthread.h>
#include <sys/socket.h>
extern int max_level_allowed_to_advance;
static int p[2];
static void nop(void* s) {}
static void setup(void) {}
static void message(act_t* a, environment_t* e, tag_t g) {
  unsigned char m[25] = {MSG_TYPE_TAGGED_MESSAGE};
  encode_uint16(0, m + 1);
  encode_uint16(_lf_my_fed_id, m + 3);
  encode_int32(4, m + 5);
  encode_tag(m + 9, g);
  CHECK(write(p[1], m, 21) == 21 && write(p[1], "\7\0\0\0", 4) == 4, "write");
  usleep(300000);
}
int main() {
  alarm(20);
  self_t* s = mkself();
  act_t* a = mknet(s, 0, 4, 0, 1);
  on(&a->t, mkreaction(s, nop, 2));
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->stop_tag = FOREVER_TAG;
  e->current_tag = (tag_t){5000, 0};
  e->execution_started = true;
  _fed.last_TAG = (tag_t){5000, 0};
  max_level_allowed_to_advance = 0;
  socketpair(AF_UNIX, SOCK_STREAM, 0, p);
  _fed.socket_TCP_RTI = p[0];
  unsigned char w[9] = {MSG_TYPE_TIMESTAMP};
  encode_int64(5000, w + 1);
  CHECK(write(p[1], w, 9) == 9, "write");
  lf_synchronize_with_other_federates();
  message(a, e, (tag_t){7000, 2});
  pthread_mutex_lock((pthread_mutex_t*)&e->mutex);
  tag_t t = FOREVER_TAG;
  event_t* ev = (event_t*)pqueue_tag_peek(e->event_q);
  CHECK(ev, "no event");
  t = ev->base.tag;
  CHECK(lf_tag_compare(t, (tag_t){7000, 2}) == 0, "tag");
  CHECK(ev->trigger == &a->t && ev->token && ev->token->length == 4 && *(char*)ev->token->value == 7, "body");
  _exit(0);
}
"""
