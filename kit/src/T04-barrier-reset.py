PROP = "T04"
NEEDS = "two messages in flight, one of which is completely received while the other is not"
BREAKS = "the barrier is removed with the first of several requests withdrawn, so logical time is not held back for the others"
EDITS = [("core/threaded/reactor_threaded.c", """  } else if (env->barrier.requestors == 0) {
    // When the semaphore reaches zero, reset the horizon to forever.
    env->barrier.horizon = FOREVER_TAG;
""", """  }
  // Reset the horizon to forever.
  env->barrier.horizon = FOREVER_TAG;
  if (env->barrier.requestors == 0) {
""")]
C = r"""#include "lfprog.h"
static void r0(void* s) {
  environment_t* e = &envs_[0];
  lf_critical_section_enter(e);
  tag_t t = lf_tag(e); t.time += MSEC(50);
  _lf_increment_tag_barrier_locked(e, t);
  tag_t u = t; u.time += MSEC(50);
  _lf_increment_tag_barrier_locked(e, u);
  _lf_decrement_tag_barrier_locked(e);
  int c = lf_tag_compare(e->barrier.horizon, t);
  _lf_decrement_tag_barrier_locked(e);
  int d = lf_tag_compare(e->barrier.horizon, FOREVER_TAG);
  lf_critical_section_exit(e);
  CHECK(c <= 0 && d == 0, "with a request left the barrier is past it (%d), or with none it is not removed (%d)", c, d);
  lf_request_stop();
}
static void setup(void) { self_t* s = mkself(); at_startup(mkreaction(s, r0, 0)); }
int main() { alarm(20); return go(); }
"""
