PROP = "S03"
NEEDS = "a program with one worker in which a watchdog expires while a reaction of its reactor executes"
BREAKS = "with a single worker, reactions are executed without the mutex of the reactor, as if nothing else could run; but watchdogs have threads of their own"
EDITS = [("core/reactor_common.c", """#if !defined(LF_SINGLE_THREADED)
  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
    LF_MUTEX_LOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
  }
#endif

  tracepoint_reaction_starts(env, reaction, worker);
""", """#if !defined(LF_SINGLE_THREADED)
  // Reactions of a reactor exclude each other unless there are several workers.
  bool exclusive = env->num_workers == 1 || ((self_base_t*)reaction->self)->reactor_mutex == NULL;
  if (!exclusive) {
    LF_MUTEX_LOCK((lf_mutex_t*)((self_base_t*)reaction->self)->reactor_mutex);
  }
#endif

  tracepoint_reaction_starts(env, reaction, worker);
"""), ("core/reactor_common.c", """  tracepoint_reaction_ends(env, reaction, worker);

#if !defined(LF_SINGLE_THREADED)
  if (((self_base_t*)reaction->self)->reactor_mutex != NULL) {
""", """  tracepoint_reaction_ends(env, reaction, worker);

#if !defined(LF_SINGLE_THREADED)
  if (!exclusive) {
""")]
C = r"""#include "lfprog.h"
static watchdog_t* w;
static volatile int inside, overlap, fired;
static void handler(void* s) { fired = 1; if (inside) overlap = 1; }
static void begin(void* s) { inside = 1; lf_watchdog_start(w, MSEC(50)); lf_sleep(MSEC(300)); inside = 0; }
static void setup(void) {
  self_t* s = mkself();
  w = mkwatchdog(s, 0, handler);
  at_startup(mkreaction(s, begin, 0));
}
int main() {
  arg("-w"); arg("1"); arg("-o"); arg("1"); arg("sec"); arg("-k"); arg("true");
  go();
  CHECK(fired, "the watchdog did not expire");
  CHECK(!overlap, "the handler of the watchdog was called while a reaction of the reactor executed");
  return 0;
}
"""
