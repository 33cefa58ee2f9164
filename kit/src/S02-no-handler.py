PROP = "S02"
NEEDS = "a reaction with a deadline and no handler of its own that comes to its turn after the deadline, in a multithreaded program"
BREAKS = "a deadline violation of a reaction without a handler is no longer reported by the function that checks it, so the reaction is executed although it missed its deadline"
EDITS = [("core/threaded/reactor_threaded.c", """      tracepoint_reaction_deadline_missed(env, reaction, worker_number);
      violation_occurred = true;
""", """      tracepoint_reaction_deadline_missed(env, reaction, worker_number);
"""), ("core/threaded/reactor_threaded.c", """        LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
""", """        LF_PRINT_LOG("Worker %d: Deadline violation. Invoking deadline handler.", worker_number);
        violation_occurred = true;
""")]
C = r"""#include "lfprog.h"
static int ran, handled;
static void slow(void* s) { lf_sleep(MSEC(100)); }
static void late(void* s) { ran++; }
static void other(void* s) { }
static void handler(void* s) { handled++; }
static void setup(void) {
  self_t* s = mkself();
  reaction_t *a = mkreaction(s, slow, 0), *b = mkreaction(s, late, 1), *c = mkreaction(s, late, 2);
  b->deadline = MSEC(10);
  c->deadline = MSEC(10); c->deadline_violation_handler = handler;
  at_startup(a); at_startup(b); at_startup(c);
}
int main() {
  arg("-o"); arg("1"); arg("msec");
  go();
  CHECK(handled == 1, "the handler was called %d times", handled);
  CHECK(ran == 0, "a reaction that missed its deadline was executed");
  return 0;
}
"""
