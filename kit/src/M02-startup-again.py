PROP = "M02"
NEEDS = "a mode that is entered, left, and entered a second time with its history"
BREAKS = "a mode whose reset was requested with its first entry has its startup recorded only if it is not entered with a reset, so that it may have it again"
EDITS = [("core/modal_models/modes.c", """      if (state->current_mode->flags & _LF_MODE_FLAG_MASK_NEEDS_STARTUP) {
        state->current_mode->flags |= _LF_MODE_FLAG_MASK_HAD_STARTUP;
""", """      if (state->current_mode->flags & _LF_MODE_FLAG_MASK_NEEDS_STARTUP) {
        if (!(state->current_mode->flags & _LF_MODE_FLAG_MASK_NEEDS_RESET))
          state->current_mode->flags |= _LF_MODE_FLAG_MASK_HAD_STARTUP;
""")]
FLAGS = "-DMODAL_REACTORS"
C = r"""#include "lfprog.h"
static int begun, k;
static reactor_mode_t *A, *B;
static self_t* o;
static void begin(void* s) { begun++; }
static void change(void* s) { k++; if (k == 1) set_mode(o, B, reset_transition); if (k == 2) set_mode(o, A, history_transition); if (k == 3) set_mode(o, B, history_transition); }
static void setup(void) {
  o = mkself();
  A = mkmode(o, NULL); B = mkmode(o, NULL);
  reaction_t* r = mkreaction(o, begin, 0);
  r->mode = B;
  at_startup(r);
  on(mktimer(MSEC(1), MSEC(1)), mkreaction(o, change, 0));
}
int main() {
  arg("-o"); arg("10"); arg("msec"); arg("-f"); arg("true");
  go();
  CHECK(begun == 1, "the startup reaction of a mode was executed %d times", begun);
  return 0;
}
"""
