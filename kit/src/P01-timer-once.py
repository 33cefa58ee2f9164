PROP = "P01"
NEEDS = "a timer without a period, and a reaction that is triggered by something else at a later tag and looks at whether the timer is present"
BREAKS = "the mark of a timer that fires only once is not noted, so that it is still present at later tags"
EDITS = [("core/reactor_common.c", """    if (event->trigger->is_timer && event->trigger->period > 0LL) {
      // Reschedule the trigger.
      lf_schedule_trigger(env, event->trigger, event->trigger->period, NULL);
    } else {
""", """    if (event->trigger->is_timer) {
      // Reschedule the trigger.
      if (event->trigger->period > 0LL)
        lf_schedule_trigger(env, event->trigger, event->trigger->period, NULL);
    } else {
""")]
C = r"""#include "lfprog.h"
static trigger_t* once;
static int n, stale;
static void look(void* self) { n++; if (once->status == present) stale++; }
static void setup(void) {
  self_t* s = mkself();
  once = mktimer(MSEC(1), 0);
  on(mktimer(0, MSEC(1)), mkreaction(s, look, 0));
}
int main() {
  arg("-o"); arg("5"); arg("msec"); arg("-f"); arg("true");
  go();
  CHECK(n >= 5 && stale == 1, "the timer was present at %d tags instead of one", stale);
  return 0;
}
"""
