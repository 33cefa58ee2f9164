PROP = "Q01"
NEEDS = "an element is popped while the last one of those that remain is the right child of the path along which one is moved down, and less than its sibling"
BREAKS = "the last element of a queue is not considered when it is the lesser of two children, and a greater one is placed above it"
EDITS = [("core/utils/pqueue_base.c", """  if ((child_node + 1) < q->size && (q->cmppri""", """  if ((child_node + 1) < q->size - 1 && (q->cmppri""")]
C = r"""#include "lfprog.h"
#include "pqueue_tag.h"
static void setup(void) {}
int main() {
  int bad = 0;
  unsigned r = 1;
  for (int k = 0; k < 200; k++) {
    pqueue_tag_t* q = pqueue_tag_init(2);
    static pqueue_tag_element_t e[9];
    for (int i = 0; i < 9; i++) { r = r * 1103515245 + 12345; e[i].tag.time = (r >> 16) % 100; pqueue_tag_insert(q, &e[i]); }
    instant_t last = 0;
    for (pqueue_tag_element_t* x; (x = pqueue_tag_pop(q));) { if (x->tag.time < last) bad++; last = x->tag.time; }
    pqueue_tag_free(q);
  }
  CHECK(!bad, "%d elements out of order", bad);
  return 0;
}
"""
