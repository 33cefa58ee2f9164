PROP = "S01"
NEEDS = "two workers that trigger the same reaction at the same moment"
BREAKS = "a reaction is claimed by a test of its status followed by a plain store, so two workers may both put it on the reaction queue"
EDITS = [("core/threaded/scheduler_NP.c", """  if (reaction == NULL || !lf_atomic_bool_compare_and_swap((int*)&reaction->status, inactive, queued)) {
    return;
  }
  LF_PRINT_DEBUG("Scheduler: Enqueueing reaction %s, which has level %lld.", reaction->name, LF_LEVEL(reaction->index));
  _lf_sched_insert_reaction""", """  // The status is tested first, without the cost of an atomic operation.
  if (reaction == NULL || reaction->status != inactive) {
    return;
  }
  LF_PRINT_DEBUG("Scheduler: Enqueueing reaction %s, which has level %lld.", reaction->name, LF_LEVEL(reaction->index));
  reaction->status = queued;
  _lf_sched_insert_reaction""")]
C = r"""#include "lfprog.h"
#include <pthread.h>
#include <sched.h>
#define N 200000
static reaction_t* r;
static int arrived;
/* both threads leave at the same moment */
static void meet(int* n) {
  *n += 2;
  __atomic_add_fetch(&arrived, 1, __ATOMIC_SEQ_CST);
  for (long k = 0; __atomic_load_n(&arrived, __ATOMIC_SEQ_CST) < *n; k++) if (k > 10000) sched_yield();
}
static void nothing(void* s) {}
static void setup(void) { r = mkreaction(mkself(), nothing, 1); }
static void* trigger(void* x) {
  int n_ = 0;
  for (int i = 0; i < N; i++) {
    meet(&n_);
    lf_scheduler_trigger_reaction(envs_[0].scheduler, r, x ? 1 : 0);
    meet(&n_);
    if (!x) {
      int n = envs_[0].scheduler->indexes[1];
      CHECK(n <= 1, "a reaction was put on the queue %d times (in round %d)", n, i);
      CHECK(n == 1, "a reaction was not put on the queue");
      envs_[0].scheduler->indexes[1] = 0;
      r->status = inactive;
    }
  }
  return NULL;
}
int main() {
  _lf_number_of_workers = 2;
  lf_create_environments();
  _lf_initialize_trigger_objects();
  pthread_t t[2];
  for (long i = 0; i < 2; i++) pthread_create(&t[i], NULL, trigger, (void*)i);
  for (int i = 0; i < 2; i++) pthread_join(t[i], NULL);
  return 0;
}
"""
