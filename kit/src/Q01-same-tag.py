PROP = "Q01"
NEEDS = "two events for different triggers are in the queue at the same tag, and the one that is not nearer to the head is looked for"
BREAKS = "the search for an event gives up at the first one with the same tag that is for something else, and the event is found missing"
EDITS = [("core/utils/pqueue_base.c", """  if (q->cmppri(q->getpri(curr), q->getpri(e)) == 0 && q->eqelem(curr, e)) {
    return curr;
  } else {
""", """  if (q->cmppri(q->getpri(curr), q->getpri(e)) == 0) {
    return q->eqelem(curr, e) ? curr : NULL;
  } else {
""")]
C = r"""#include "lfprog.h"
#include "pqueue_tag.h"
static int same(void* a, void* b) { return a == b; }
static void setup(void) {}
int main() {
  pqueue_tag_t* q = pqueue_tag_init_customize(2, pqueue_tag_compare, same, NULL);
  static pqueue_tag_element_t e[5];
  for (int i = 0; i < 5; i++) { e[i].tag.time = i < 3 ? 5 : 7; pqueue_tag_insert(q, &e[i]); }
  for (int i = 0; i < 5; i++) CHECK(pqueue_tag_find_equal_same_tag(q, &e[i]) == &e[i], "element %d is not found", i);
  return 0;
}
"""
