PROP = "W01"
NEEDS = "a watchdog that is stopped while its thread sleeps, and started again with a shorter timeout"
BREAKS = "stopping a watchdog no longer wakes up its thread, which goes on sleeping until the old expiration, so the watchdog fires late when it is started again"
EDITS = [("core/threaded/watchdog.c", """  watchdog->expiration = NEVER;

  // If lf_watchdog_stop is called very close to lf_watchdog_start, it might
  // not have had the time to wake up and start sleeping.
  if (!watchdog->active) {
    return;
  }
""", """  watchdog->expiration = NEVER;

  // If lf_watchdog_stop is called very close to lf_watchdog_start, it might
  // not have had the time to wake up and start sleeping. A watchdog that was stopped needs no signal.
  if (!watchdog->active || watchdog->expiration == NEVER) {
    return;
  }
""")]
C = r"""#include "lfprog.h"
static watchdog_t* w;
static volatile instant_t fired;
static act_t *x, *y;
static void handler(void* s) { fired = lf_time_physical(); }
static void begin(void* s) { lf_watchdog_start(w, SEC(5)); lf_schedule_token(x, MSEC(200), NULL); lf_schedule_token(y, MSEC(400), NULL); }
static void stop(void* s) { lf_watchdog_stop(w); }
static void again(void* s) { lf_watchdog_start(w, MSEC(100)); }
static void setup(void) {
  self_t* s = mkself();
  w = mkwatchdog(s, 0, handler);
  x = mkaction(s, 'l', 0, 0); on(&x->t, mkreaction(s, stop, 0));
  y = mkaction(s, 'l', 0, 0); on(&y->t, mkreaction(s, again, 0));
  at_startup(mkreaction(s, begin, 0));
}
int main() {
  arg("-o"); arg("3"); arg("sec"); arg("-k"); arg("true");
  go();
  CHECK(fired, "the watchdog was started with a timeout of 0.1 s at 0.4 s, and has not expired at 3 s");
  return 0;
}
"""
