PROP = "C03"
NEEDS = "a spurious wake-up (or a wake-up taken by another worker first) while a worker waits on the scheduler's semaphore"
BREAKS = "a worker acquires the semaphore although its count is zero, and the count wraps around"
EDITS = [("core/utils/lf_semaphore.c", """  while (semaphore->count == 0) {
    lf_cond_wait(&semaphore->cond);
  }
  semaphore->count--;""", """  if (semaphore->count == 0) {
    lf_cond_wait(&semaphore->cond);
  }
  semaphore->count--;""")]
FLAGS = "-Wl,--wrap=lf_cond_wait"
C = r"""#include "lfprog.h"
#include "lf_semaphore.h"
#include <pthread.h>
static void setup(void) {}
int __real_lf_cond_wait(lf_cond_t*);
static volatile int spurious = 3, acquired;
/* POSIX allows a wait to return without a signal */
int __wrap_lf_cond_wait(lf_cond_t* c) { if (spurious > 0) { spurious--; return 0; } return __real_lf_cond_wait(c); }
static lf_semaphore_t* sem;
static void* w(void* x) { lf_semaphore_acquire(sem); acquired = 1; return NULL; }
int main() {
  sem = lf_semaphore_new(0);
  pthread_t t; pthread_create(&t, NULL, w, NULL);
  usleep(300000);
  CHECK(!acquired, "semaphore acquired although its count is zero");
  lf_semaphore_release(sem, 1);
  for (int i = 0; i < 100 && !acquired; i++) usleep(20000);
  CHECK(acquired, "released semaphore not acquired");
  return 0;
}
"""
