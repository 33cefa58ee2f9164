PROP = "S04"
NEEDS = "a worker that is woken up at the end and looks at the flag before the worker that woke it up has set it"
BREAKS = "the workers are woken up before the flag that tells them to stop is set, so that a worker may go back to sleep and the program never ends"
EDITS = [("core/threaded/scheduler_NP.c", """  scheduler->should_stop = true;
  lf_semaphore_release(scheduler->custom_data->semaphore, (scheduler->number_of_workers - 1));
""", """  lf_semaphore_release(scheduler->custom_data->semaphore, (scheduler->number_of_workers - 1));
  scheduler->should_stop = true;
""")]
FLAGS = "-Wl,--wrap=lf_semaphore_release"
C = r"""#include "lfprog.h"
#include "lf_semaphore.h"
void __real_lf_semaphore_release(lf_semaphore_t*, size_t);
/* whoever is woken up runs before the one that woke it up goes on */
void __wrap_lf_semaphore_release(lf_semaphore_t* s, size_t n) { __real_lf_semaphore_release(s, n); usleep(30000); }
static int n;
static void tick(void* self) { n++; }
static void setup(void) { on(mktimer(0, MSEC(1)), mkreaction(mkself(), tick, 0)); }
int main() {
  alarm(20);
  arg("-o"); arg("5"); arg("msec"); arg("-f"); arg("true"); arg("-w"); arg("3");
  go();
  CHECK(n == 6, "%d ticks", n);
  return 0;
}
"""
