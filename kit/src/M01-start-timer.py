PROP = "M01"
NEEDS = "a reaction within a mode that is not the initial one, with an input that is set at startup by a reaction outside of it"
BREAKS = "a triggered reaction is put on the queue as soon as its mode is the current mode of its own reactor, although an enclosing mode is inactive"
EDITS = [("core/threaded/reactor_threaded.c", "  if (_lf_mode_is_active(reaction->mode)) {\n", "  if (reaction->mode == NULL || reaction->mode->state->current_mode == reaction->mode) {\n")]
FLAGS = "-DMODAL_REACTORS"
C = r"""#include "lfprog.h"
static int ran;
static reaction_t* inner;
static void f(void* s) { ran++; }
static void begin(void* s) { _lf_trigger_reaction(&envs_[0], inner, -1); }
static void setup(void) {
  self_t *o = mkself(), *i = mkself();
  mkmode(o, NULL);
  reactor_mode_t* second = mkmode(o, NULL);
  reactor_mode_t* in = mkmode(i, second);
  inner = mkreaction(i, f, 1);
  inner->mode = in;
  at_startup(mkreaction(o, begin, 0));
}
int main() {
  arg("-o"); arg("1"); arg("msec");
  go();
  CHECK(ran == 0, "a reaction of a mode within an inactive mode was executed");
  return 0;
}
"""
