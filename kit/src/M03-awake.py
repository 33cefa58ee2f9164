PROP = "M03"
NEEDS = "a modal reactor within a mode that is left, with an event pending for the nested mode"
BREAKS = "events of nested modes are suspended only if their own reactor changes its mode, not if the mode enclosing it is left"
EDITS = [("core/modal_models/modes.c", """event->trigger != NULL && !_lf_mode_is_active(event->trigger->mode)) {
            delayed""", """event->trigger != NULL && event->trigger->mode != NULL &&
              event->trigger->mode->state->current_mode != event->trigger->mode) {
            delayed""")]
FLAGS = "-DMODAL_REACTORS"
C = r"""#include "lfprog.h"
extern int _lf_suspended_events_num;
static int pending = -1;
static reactor_mode_t *A, *B, *X;
static self_t* o;
static void tick(void* s) { }
static void leave(void* s) { set_mode(o, B, reset_transition); }
static void look(void* s) { pending = _lf_suspended_events_num; }
static void setup(void) {
  o = mkself();
  self_t* i = mkself();
  A = mkmode(o, NULL); B = mkmode(o, NULL);
  X = mkmode(i, A);
  trigger_t* t = mktimer(MSEC(8), MSEC(1));
  t->mode = X;
  reaction_t* r = mkreaction(i, tick, 1);
  r->mode = X;
  on(t, r);
  on(mktimer(MSEC(3), 0), mkreaction(o, leave, 0));
  on(mktimer(MSEC(5), 0), mkreaction(o, look, 0));
}
int main() {
  arg("-o"); arg("10"); arg("msec"); arg("-f"); arg("true");
  go();
  CHECK(pending == 1, "%d events are suspended", pending);
  return 0;
}
"""
