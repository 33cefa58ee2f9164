PROP = "T01"
NEEDS = "another thread holds the lock when the wait for a timer times out and schedules an earlier event before releasing it"
BREAKS = "the tag to advance to is not looked up again after the wait, so the timer's tag is reached before the earlier event's"
EDITS = [("core/threaded/reactor_threaded.c", """  // A wait occurs even if wait_until() returns true, which means that the
  // tag on the head of the event queue may have changed.
  next_tag = get_next_event_tag(env);

  // If this (possibly new) next tag is past the stop time, return.
  if (lf_is_tag_after_stop_tag(env, next_tag)) { // lf_tag_compare(tag, stop_tag) > 0
    return;
  }
""", """  // If this next tag is past the stop time, return.
  if (lf_is_tag_after_stop_tag(env, next_tag)) { // lf_tag_compare(tag, stop_tag) > 0
    return;
  }
""")]
C = r"""#include "lfprog.h"
#include <pthread.h>
static act_t *a; static instant_t seen[4]; static int n;
static void sleep_until(interval_t t) { while (lf_time_physical_elapsed() < t) usleep(500); }
static void* outside(void* x) {
  sleep_until(MSEC(150));
  lf_critical_section_enter(&envs_[0]);
  sleep_until(MSEC(260));
  lf_schedule_trigger(&envs_[0], &a->t, 0, NULL);   /* logical action with delay 100 ms, at tag 0 */
  lf_critical_section_exit(&envs_[0]);
  return NULL;
}
static pthread_t th;
static void r0(void* s) { pthread_create(&th, NULL, outside, NULL); }
static void rec(void* s) { seen[n++] = lf_time_logical_elapsed(&envs_[0]); }
static void r3(void* s) { rec(s); lf_request_stop(); }
static void setup(void) {
  self_t* s = mkself();
  a = mkaction(s, 'l', MSEC(100), 0);
  at_startup(mkreaction(s, r0, 0)); on(&a->t, mkreaction(s, rec, 1)); on(mktimer(MSEC(200), 0), mkreaction(s, r3, 2));
}
static void fin(void) { CHECK(n == 2 && seen[0] == MSEC(100) && seen[1] == MSEC(200), "%d events at %lld, %lld", n, (long long)seen[0], (long long)seen[1]); }
int main() { arg("-k"); arg("true"); int r = go(); fin(); return r; }
"""
