PROP = "F03"
NEEDS = "two ports in a cycle whose status is not known, with reactions of different levels in this order"
BREAKS = "reactions execute before the status of the first port is known"
EDITS = [("core/federated/federate.c", """          LF_MIN(max_level_allowed_to_advance, ((int)LF_LEVEL(input_port_action->trigger->reactions[0]->index)));""",
"""          LF_MIN(prev_max_level_allowed_to_advance, ((int)LF_LEVEL(input_port_action->trigger->reactions[0]->index)));""")]
CONF = "fed-cent"
C = r"""#define NO_RTI
#include "lfprog.h"
extern int max_level_allowed_to_advance;
static void nop(void* s) {}
static void setup(void) {}
int main() {
  alarm(20);
  self_t* s = mkself();
  act_t *a = mknet(s, 0, 4, 0, 1), *b = mknet(s, 0, 4, 0, 1);
  on(&a->t, mkreaction(s, nop, 2));
  on(&b->t, mkreaction(s, nop, 5));
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  e->current_tag = (tag_t){5000, 0};
  lf_update_max_level((tag_t){5000, 0}, false);
  CHECK(max_level_allowed_to_advance == INT_MAX, "granted");
  lf_update_max_level((tag_t){5000, 0}, true);
  CHECK(max_level_allowed_to_advance == 2, "limit %d", max_level_allowed_to_advance);
  a->t.last_known_status_tag = (tag_t){5000, 0};
  lf_update_max_level((tag_t){5000, 0}, true);
  CHECK(max_level_allowed_to_advance == 5, "limit %d", max_level_allowed_to_advance);
  _exit(0);
}
"""
