PROP = "M02"
NEEDS = "a modal reactor within a mode that is left, while its own mode changes in the same step"
BREAKS = "the mode of a nested reactor keeps its active flag if the mode enclosing it was just left and the nested reactor makes no transition itself"
EDITS = [("core/modal_models/modes.c", """        // Clear cached active flag on active state, because
        // parent activity might have changed or active state may change.
        state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_ACTIVE;

        // Apply transition effect
        if (state->next_mode != NULL) {
""", """        // Apply transition effect
        if (state->next_mode != NULL) {
          // Clear cached active flag on active state, because
          // parent activity might have changed or active state may change.
          state->current_mode->flags &= ~_LF_MODE_FLAG_MASK_ACTIVE;

""")]
FLAGS = "-DMODAL_REACTORS"
C = r"""#include "lfprog.h"
static int late;
static reactor_mode_t *A, *B, *X;
static self_t* o;
static void tick(void* s) { if (lf_time_logical_elapsed(&envs_[0]) > MSEC(5)) late++; }
static void leave(void* s) { set_mode(o, B, reset_transition); }
static void setup(void) {
  o = mkself();
  self_t* i = mkself();
  A = mkmode(o, NULL); B = mkmode(o, NULL);
  X = mkmode(i, A);
  trigger_t* t = mktimer(0, MSEC(1));
  t->mode = X;
  reaction_t* r = mkreaction(i, tick, 1);
  r->mode = X;
  on(t, r);
  trigger_t* l = mktimer(MSEC(3), 0);
  on(l, mkreaction(o, leave, 0));
}
int main() {
  arg("-o"); arg("10"); arg("msec"); arg("-f"); arg("true");
  go();
  CHECK(late == 0, "a timer within a mode that was left ticked %d times", late);
  return 0;
}
"""
