PROP = "F03"
NEEDS = "a tag at a later microstep of the time up to which a port is known"
BREAKS = "a port is taken as absent of which nothing is known at this microstep"
EDITS = [("core/federated/federate.c", "    if (lf_tag_compare(_lf_action_table[i]->trigger->last_known_status_tag, now) >= 0) {",
          "    if (_lf_action_table[i]->trigger->last_known_status_tag.time >= now.time) {")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
static void nop(void* s) {}
static void setup(void) {}
int main() {
  alarm(20);
  self_t* s = mkself();
  act_t* a = mknet(s, 0, 4, 0, 1);
  on(&a->t, mkreaction(s, nop, 2));
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->current_tag = (tag_t){5000, 3};
  for (unsigned m = 2; m < 5; m++) {
    a->t.last_known_status_tag = (tag_t){5000, m};
    lf_reset_status_fields_on_input_port_triggers();
    CHECK(a->t.status == (m < 3 ? unknown : absent), "status %d when known to microstep %u", a->t.status, m);
  }
  _exit(0);
}
"""
