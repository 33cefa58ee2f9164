PROP = "S01"
NEEDS = "two events at one tag whose triggers share a reaction, where the second one has a further reaction after the shared one"
BREAKS = "the loop over the reactions of a trigger stops at the first one that is already triggered, so the reactions after it are not executed"
EDITS = [("core/reactor_common.c", """        LF_PRINT_DEBUG("Reaction is already triggered: %s", reaction->name);
""", """        // Another event at this tag has put the reactions of this trigger on the queue.
        LF_PRINT_DEBUG("Reaction is already triggered: %s", reaction->name);
        break;
""")]
C = r"""#include "lfprog.h"
static act_t *a, *b;
static int shared, only;
static void begin(void* s) { lf_schedule(&a->a, MSEC(5)); lf_schedule(&b->a, MSEC(5)); }
static void both(void* s) { shared++; }
static void one(void* s) { only++; }
static void setup(void) {
  self_t* s = mkself();
  a = mkaction(s, 'l', 0, 0); b = mkaction(s, 'l', 0, 0);
  reaction_t *r = mkreaction(s, both, 0), *q = mkreaction(s, one, 1);
  on(&a->t, r); on(&b->t, r); on(&b->t, q);
  at_startup(mkreaction(s, begin, 0));
}
int main() {
  arg("-o"); arg("1"); arg("sec"); arg("-f"); arg("true");
  go();
  CHECK(shared == 1, "the reaction of both actions was executed %d times", shared);
  CHECK(only == 1, "the reaction of the second action was executed %d times", only);
  return 0;
}
"""
