PROP = "T03"
NEEDS = "scheduling at an earlier microstep of the current time"
BREAKS = "an event with a tag in the past gets on the event queue"
EDITS = [("core/reactor_common.c", """  if (lf_tag_compare(tag, current_logical_tag) <= 0 && env->execution_started) {
    lf_print_warning""", """  if ((tag.time < current_logical_tag.time ||
       (tag.time == current_logical_tag.time && tag.microstep == current_logical_tag.microstep)) &&
      env->execution_started) {
    lf_print_warning""")]
C = r"""#include "lfprog.h"
static act_t *a, *b; static int n, bad; static trigger_handle_t h;
static void r0(void* s) { lf_schedule(a, 0); }
static void r1(void* s) {
  if (n++ < 3) { lf_schedule(a, 0); return; }
  tag_t t = lf_tag(&envs_[0]); t.microstep -= 2;
  h = _lf_schedule_at_tag(&envs_[0], &b->t, t, NULL);
  lf_request_stop();
}
static void r2(void* s) { bad++; }
static void setup(void) {
  self_t* s = mkself();
  a = mkaction(s, 'l', 0, 0); b = mkaction(s, 'l', 0, 0);
  at_startup(mkreaction(s, r0, 0)); on(&a->t, mkreaction(s, r1, 1)); on(&b->t, mkreaction(s, r2, 2));
}
int main() { arg("-o"); arg("20"); arg("msec"); alarm(20); int r = go(); CHECK(h == -1 && bad == 0, "handle %d, %d events", (int)h, bad); return r; }
"""
