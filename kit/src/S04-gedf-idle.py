PROP = "S04"
NEEDS = "the GEDF scheduler, three workers, and a reaction that is still executing when an idle worker finds one of a higher level"
BREAKS = "the level is advanced if any other worker is idle rather than all of them, so that a reaction executes while one of a lower level is not done"
EDITS = [("core/threaded/scheduler_GEDF_NP.c", """        if (scheduler->number_of_idle_workers == scheduler->number_of_workers - 1) {
          // All other workers are idle.  Advance to the next level.
""", """        if (scheduler->number_of_workers - scheduler->number_of_idle_workers < scheduler->number_of_workers) {
          // Other workers are idle.  Advance to the next level.
""")]
FLAGS = "-DSCHEDULER=SCHED_GEDF_NP"
C = r"""#include "lfprog.h"
static volatile int busy, overlap, n;
static void slow(void* self) { busy = 1; usleep(20000); busy = 0; }
static void later(void* self) { n++; if (busy) overlap++; }
static void setup(void) {
  trigger_t* t = mktimer(0, MSEC(1));
  on(t, mkreaction(mkself(), slow, 0));
  on(t, mkreaction(mkself(), later, 1));
}
int main() {
  alarm(30);
  arg("-o"); arg("9"); arg("msec"); arg("-f"); arg("true"); arg("-w"); arg("3");
  go();
  CHECK(n == 10, "%d executions", n);
  CHECK(overlap == 0, "%d times a reaction was executed before one of a lower level was done", overlap);
  return 0;
}
"""
