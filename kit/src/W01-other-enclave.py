PROP = "W01"
NEEDS = "a program with more than one environment, one of which gets a physical action while it sleeps until its next event"
BREAKS = "scheduling an action wakes up the workers of the top-level environment rather than those of the environment whose queue got the event, so it is handled late"
EDITS = [("core/threaded/reactor_threaded.c", """  return lf_cond_broadcast(&env->event_q_changed);""",
"""  environment_t* top_level;
  _lf_get_environments(&top_level);
  // There is one event queue per program.
  return lf_cond_broadcast(&top_level->event_q_changed);""")]
C = r"""#define NENV 2
#include "lfprog.h"
#include <pthread.h>
static act_t *x, *y;
static volatile instant_t done;
static void handle(void* s) { done = lf_time_physical(); }
static void* later(void* u) { usleep(400000); lf_schedule_token(x, 0, NULL); return NULL; }
static void begin(void* s) { pthread_t t; pthread_create(&t, NULL, later, NULL); }
static void setup(void) {
  self_t *a = mkself(), *b = mkself();
  b->base.environment = &envs_[1];
  x = mkaction(b, 'p', 0, 0); on(&x->t, mkreaction(b, handle, 0)); npresent--;
  at_startup(mkreaction(a, begin, 0));
}
static volatile int back;
static void* mainthread(void* u) { go(); back = 1; return NULL; }
int main() {
  arg("-o"); arg("4"); arg("sec"); arg("-k"); arg("true"); arg("-w"); arg("2");
  pthread_t t; pthread_create(&t, NULL, mainthread, NULL);
  for (int i = 0; i < 100 && !done; i++) usleep(20000);
  CHECK(done, "an action scheduled 0.4 s after the start was not handled within 2 s");
  return 0;
}
"""
