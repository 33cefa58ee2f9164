PROP = "M03"
NEEDS = "a mode with an event that was already due in the past of the time when the mode was left first, entered with its history"
BREAKS = "the time that remains of a suspended event is counted from the start although the mode was active since, so the event is late"
EDITS = [("core/modal_models/modes.c", """                  (state->next_mode->deactivation_time != 0 ? state->next_mode->deactivation_time : lf_time_start());
""", """                  (event->trigger->is_timer ? lf_time_start() : state->next_mode->deactivation_time);
"""), ("core/modal_models/modes.c", """          state->current_mode->deactivation_time = lf_time_logical(env);
""", """          // (Timers of modes that were never active are due relative to the start time.)
          state->current_mode->deactivation_time = lf_time_logical(env);
""")]
FLAGS = "-DMODAL_REACTORS"
C = r"""#include "lfprog.h"
static int k, at;
static reactor_mode_t *A, *B;
static self_t* o;
static void tick(void* s) { if (k == 2 && !at) at = (int)(lf_time_logical_elapsed(&envs_[0]) / 1000000); }
static void change(void* s) { k++; if (k == 1) set_mode(o, B, reset_transition); if (k == 2) set_mode(o, A, history_transition); }
static void setup(void) {
  o = mkself();
  A = mkmode(o, NULL); B = mkmode(o, NULL);
  trigger_t* t = mktimer(MSEC(10), MSEC(10));
  t->mode = A;
  reaction_t* r = mkreaction(o, tick, 0);
  r->mode = A;
  on(t, r);
  on(mktimer(MSEC(25), MSEC(25)), mkreaction(o, change, 0));
}
int main() {
  arg("-o"); arg("90"); arg("msec"); arg("-f"); arg("true");
  go();
  CHECK(at == 55, "the timer ticked at %d msec", at);
  return 0;
}
"""
