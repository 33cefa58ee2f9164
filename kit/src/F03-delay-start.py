PROP = "F03"
NEEDS = "the tag that is exactly the delay of a connection after the start, in decentralized coordination"
BREAKS = "a port is taken as absent at the first tag at which a message may reach it"
EDITS = [("core/federated/federate.c", """         lf_tag_compare(env->current_tag, lf_delay_strict((tag_t){.time = start_time, .microstep = 0},
                                                          _lf_action_delay_table[i])) <= 0)) {""",
"""         lf_tag_compare(env->current_tag, lf_delay_tag((tag_t){.time = start_time, .microstep = 0},
                                                       _lf_action_delay_table[i])) <= 0)) {""")]
CONF = "fed-dec"
C = r"""#define NO_RTI
#include "lfprog.h"
extern int max_level_allowed_to_advance;
extern instant_t start_time;
static void nop(void* s) {}
static void setup(void) {}
int main() {
  alarm(20);
  self_t* s = mkself();
  act_t* a = mknet(s, 0, 4, 1000, 0);
  on(&a->t, mkreaction(s, nop, 2));
  lf_create_environments();
  environment_t* e = &envs_[0];
  init_fed_(e);
  start_time = 5000;
  e->current_tag = (tag_t){5999, 7};
  lf_update_max_level(NEVER_TAG, false);
  CHECK(max_level_allowed_to_advance == INT_MAX, "waits for a port that is absent");
  e->current_tag = (tag_t){6000, 0};
  lf_update_max_level(NEVER_TAG, false);
  CHECK(max_level_allowed_to_advance == 2, "does not wait for the port: %d", max_level_allowed_to_advance);
  _exit(0);
}
"""
