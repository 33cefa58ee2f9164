PROP = "D01"
NEEDS = "a watchdog that is started again, with a later expiration, while its thread sleeps"
BREAKS = "the thread of a watchdog remembers the expiration with which it started to wait, so it calls the handler although the watchdog was restarted in time"
EDITS = [("core/threaded/watchdog.c", """  instant_t physical_time = lf_time_physical();
  while (watchdog->expiration != NEVER && physical_time < watchdog->expiration && !watchdog->terminate) {
""", """  instant_t physical_time = lf_time_physical();
  const instant_t expiration = watchdog->expiration;
  while (watchdog->expiration != NEVER && physical_time < expiration && !watchdog->terminate) {
""")]
C = r"""#include "lfprog.h"
static watchdog_t* w;
static volatile int fired, begun;
static act_t *x, *y;
static void handler(void* s) { fired = 1; }
static void begin(void* s) { lf_watchdog_start(w, MSEC(500)); lf_schedule_token(x, MSEC(200), NULL); lf_schedule_token(y, MSEC(1000), NULL); }
static void again(void* s) { lf_watchdog_start(w, SEC(5)); }
static void stop(void* s) { CHECK(!fired, "the watchdog was restarted in time, and expired all the same"); lf_watchdog_stop(w); }
static void setup(void) {
  self_t* s = mkself();
  w = mkwatchdog(s, 0, handler);
  x = mkaction(s, 'l', 0, 0); on(&x->t, mkreaction(s, again, 0));
  y = mkaction(s, 'l', 0, 0); on(&y->t, mkreaction(s, stop, 0));
  at_startup(mkreaction(s, begin, 0));
}
int main() {
  arg("-o"); arg("1200"); arg("msec"); arg("-k"); arg("true");
  return go();
}
"""
