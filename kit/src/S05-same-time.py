PROP = "S05"
CONF = "fed-dec"
NEEDS = "a federate with decentralised coordination for which a message arrives at the intended time, but a microstep too late"
BREAKS = "whether a message is late is decided by comparing times rather than tags, so a message that is late by microsteps does not have the STP handler called"
EDITS = [("core/reactor_common.c", """  if (lf_tag_compare(trigger->intended_tag, env->current_tag) < 0) {
""", """  if (trigger->intended_tag.time < env->current_tag.time) {
""")]
C = r"""#define NO_RTI
#include "lfprog.h"
bool _lf_worker_handle_violations(environment_t*, int, reaction_t*);
static int handled;
static void f(void* s) { }
static void stp(void* s) { handled++; }
static void setup(void) { mkself(); }
static int late(environment_t* e, act_t* p, reaction_t* r, tag_t intended) {
  handled = 0;
  r->status = inactive; r->is_STP_violated = false;
  p->t.intended_tag = intended;
  _lf_insert_reactions_for_trigger(e, &p->t, NULL);
  bool v = _lf_worker_handle_violations(e, 0, r);
  CHECK(v == (handled == 1), "the handler was called %d times", handled);
  return handled;
}
int main() {
  lf_create_environments();
  environment_t* e = &envs_[0];
  self_t* s = mkself();
  _lf_initialize_trigger_objects();
  act_t* p = mknet(s, 1, 0, -1, 0);
  reaction_t* r = mkreaction(s, f, 1);
  r->STP_handler = stp;
  on(&p->t, r);
  e->current_tag = (tag_t){100, 2};
  CHECK(late(e, p, r, (tag_t){50, 3}) == 1, "a message that is late is not handled");
  CHECK(late(e, p, r, (tag_t){100, 2}) == 0, "a message that is in time is handled as if it were late");
  CHECK(late(e, p, r, (tag_t){100, 1}) == 1, "a message that is late by a microstep is not handled");
  return 0;
}
"""
