PROP = "C04"
NEEDS = "a thread outside the program scheduling a payload while a worker thread uses the event queue"
BREAKS = "the event queue and the recycled events are accessed without the environment's lock"
EDITS = [("lib/schedule.c", """  // The schedule function will increment the reference count.
  trigger_handle_t result = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, offset, token);
  // Notify the main thread in case it is waiting for physical time to elapse.
  lf_notify_of_event(env);
  LF_CRITICAL_SECTION_EXIT(env);
  return result;""", """  LF_CRITICAL_SECTION_EXIT(env);
  // The schedule function will increment the reference count.
  trigger_handle_t result = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, offset, token);
  // Notify the main thread in case it is waiting for physical time to elapse.
  LF_CRITICAL_SECTION_ENTER(env);
  lf_notify_of_event(env);
  LF_CRITICAL_SECTION_EXIT(env);
  return result;""")]
FLAGS = "-fsanitize=thread"
RUN = """TSAN_OPTIONS="detect_deadlocks=0 exitcode=0" timeout 100 "$t/demo" >"$t/log" 2>&1; rc=$?
if grep -q "in pqueue_insert\\|in pqueue_pop\\|in lf_get_new_event" "$t/log"; then cat "$t/log"; exit 3; fi
[ $rc = 0 ] || { cat "$t/log"; exit 3; }"""
C = r"""#include "lfprog.h"
#include <pthread.h>
static act_t *p; static int n;
static void* outside(void* x) {
  for (int i = 0; i < 300; i++) { int v = i; lf_schedule_copy(p, 0, &v, 1); usleep(50); }
  lf_request_stop();
  return NULL;
}
static pthread_t th;
static void r0(void* s) { pthread_create(&th, NULL, outside, NULL); }
static void r2(void* s) { n++; }
static void setup(void) {
  self_t* s = mkself();
  p = mkaction(s, 'p', 0, sizeof(int));
  at_startup(mkreaction(s, r0, 0)); on(&p->t, mkreaction(s, r2, 2)); on(mktimer(0, USEC(100)), mkreaction(s, r2, 3));
}
int main() { return go(); }
"""
