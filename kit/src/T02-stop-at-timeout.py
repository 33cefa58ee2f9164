PROP = "T02"
NEEDS = "a reaction at the timeout, where the program ends, requests a stop"
BREAKS = "the stop tag is raised by a microstep instead of only ever being lowered, so execution goes past the timeout"
EDITS = [("core/reactor_common.c", """  assert(env != GLOBAL_ENVIRONMENT);
  if (lf_tag_compare(tag, env->stop_tag) < 0) {
    env->stop_tag = tag;""", """  assert(env != GLOBAL_ENVIRONMENT);
  if (tag.time <= env->stop_tag.time) {
    env->stop_tag = tag;""")]
CONF = "single"
C = r"""#include "lfprog.h"
static int shut; static tag_t last;
static void r1(void* s) { if (lf_time_logical_elapsed(&envs_[0]) == MSEC(20)) lf_request_stop(); }
static void r2(void* s) { shut++; last = lf_tag(&envs_[0]); }
static void setup(void) {
  self_t* s = mkself();
  on(mktimer(0, MSEC(10)), mkreaction(s, r1, 0)); at_shutdown(mkreaction(s, r2, 1));
}
int main() {
  arg("-o"); arg("20"); arg("msec");
  int r = go();
  CHECK(shut == 1 && last.microstep == 0 && last.time == lf_time_start() + MSEC(20), "%d shutdowns, the last at microstep %u", shut, last.microstep);
  return r;
}
"""
