PROP = "T05"
NEEDS = "another thread reading a later time between this thread's two accesses to the last reading"
BREAKS = "the last reading goes backwards when the compare-and-swap is retried, so that physical time does too"
EDITS = [("core/clock.c", """  do {
    // Atomically fetch the last read value. This is done with
    // atomics to guarantee that it works on 32bit platforms as well.
    last_read_local = lf_atomic_fetch_add64(&last_read_physical_time, 0);

    // Ensure monotonicity.
    if (*now < last_read_local) {
      *now = last_read_local + 1;
    }
""", """  // Ensure monotonicity.
  last_read_local = lf_atomic_fetch_add64(&last_read_physical_time, 0);
  if (*now < last_read_local) {
    *now = last_read_local + 1;
  }
  do {
    // Atomically fetch the last read value. This is done with
    // atomics to guarantee that it works on 32bit platforms as well.
    last_read_local = lf_atomic_fetch_add64(&last_read_physical_time, 0);
""")]
FLAGS = "-Wl,--wrap=lf_atomic_bool_compare_and_swap64"
C = r"""#include "lfprog.h"
#include <pthread.h>
bool __real_lf_atomic_bool_compare_and_swap64(int64_t* p, int64_t o, int64_t n);
static int armed; static int64_t late;
/* Plays the thread that reads the clock in between. */
bool __wrap_lf_atomic_bool_compare_and_swap64(int64_t* p, int64_t o, int64_t n) {
  if (armed) { armed = 0; late = n + MSEC(1); __atomic_store_n(p, late, __ATOMIC_SEQ_CST); }
  return __real_lf_atomic_bool_compare_and_swap64(p, o, n);
}
static void r0(void* s) {
  armed = 1;
  instant_t t = lf_time_physical();
  CHECK(late != 0 && t >= late, "read %lld after %lld", (long long)t, (long long)late);
  lf_request_stop();
}
static void setup(void) { self_t* s = mkself(); at_startup(mkreaction(s, r0, 0)); }
int main() { alarm(20); return go(); }
"""
