PROP = "C02"
NEEDS = "one thread scheduling an event with a payload while another one initialises a token template or sets up an action's token"
BREAKS = "the global lock is taken before the environment's lock on one path and after it on all others, so two threads can deadlock"
EDITS = [("lib/schedule.c", """  token_template_t* template = (token_template_t*)action;
  environment_t* env = ((lf_action_base_t*)action)->parent->environment;
  LF_CRITICAL_SECTION_ENTER(env);
  lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
  int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
  // Notify the main thread in case it is waiting for physical time to elapse.
  lf_notify_of_event(env);
  LF_CRITICAL_SECTION_EXIT(env);
  return return_value;""", """  token_template_t* template = (token_template_t*)action;
  environment_t* env = ((lf_action_base_t*)action)->parent->environment;
  // Tokens come from a pool that all environments share.
  LF_CRITICAL_SECTION_ENTER(GLOBAL_ENVIRONMENT);
  LF_CRITICAL_SECTION_ENTER(env);
  lf_token_t* token = _lf_initialize_token_with_value(template, value, length);
  LF_CRITICAL_SECTION_EXIT(GLOBAL_ENVIRONMENT);
  int return_value = lf_schedule_trigger(env, ((lf_action_base_t*)action)->trigger, extra_delay, token);
  // Notify the main thread in case it is waiting for physical time to elapse.
  lf_notify_of_event(env);
  LF_CRITICAL_SECTION_EXIT(env);
  return return_value;""")]
FLAGS = "-fsanitize=thread"
RUN = """TSAN_OPTIONS="detect_deadlocks=1 report_bugs=1 exitcode=0" timeout 100 "$t/demo" >"$t/log" 2>&1; rc=$?
if grep -q "lock-order-inversion" "$t/log"; then cat "$t/log"; exit 3; fi
exit $rc"""
C = r"""#include "lfprog.h"
#include <pthread.h>
static act_t *a, *p; static int n;
static void* outside(void* x) {
  for (int i = 0; i < 50; i++) { int* v = malloc(sizeof(int)); *v = i; lf_schedule_value(p, 0, v, 1); usleep(300); }
  return NULL;
}
static pthread_t th;
static void r0(void* s) { pthread_create(&th, NULL, outside, NULL); int v = 1; lf_schedule_copy(a, MSEC(1), &v, 1); }
static void r1(void* s) { int v = n; if (n++ < 200) lf_schedule_copy(a, USEC(100), &v, 1); else { pthread_join(th, NULL); lf_request_stop(); } }
static void r2(void* s) {}
static void setup(void) {
  self_t* s = mkself();
  a = mkaction(s, 'l', 0, sizeof(int)); p = mkaction(s, 'p', 0, sizeof(int));
  at_startup(mkreaction(s, r0, 0)); on(&a->t, mkreaction(s, r1, 1)); on(&p->t, mkreaction(s, r2, 2));
}
int main() { return go(); }
"""
