PROP = "Q01"
NEEDS = "an element is removed from the middle of a queue of six or more, where the last element is less than the one above the removed one"
BREAKS = "the element that takes the place of a removed one is only ever moved down, so that it may stay below a greater one, and the queue is out of order"
EDITS = [("core/utils/pqueue_base.c", """  if (q->cmppri(q->getpri(d), q->getpri(q->d[posn])) == 1)
    bubble_up(q, posn);
  else
    percolate_down(q, posn);
""", """  percolate_down(q, posn);
""")]
C = r"""#include "lfprog.h"
#include "pqueue_tag.h"
static void setup(void) {}
int main() {
  pqueue_tag_t* q = pqueue_tag_init(2);
  static pqueue_tag_element_t e[7];
  /* 1; 10 2; 11 12 20 4: the last one has to go up when one of those below 10 is removed */
  instant_t t[] = {1, 10, 2, 11, 12, 20, 4};
  for (int i = 0; i < 7; i++) { e[i].tag.time = t[i]; pqueue_tag_insert(q, &e[i]); }
  pqueue_tag_remove(q, &e[3]);
  instant_t last = 0;
  int n = 0, bad = 0;
  for (pqueue_tag_element_t* x; (x = pqueue_tag_pop(q)); n++) { if (x->tag.time < last) bad++; last = x->tag.time; }
  CHECK(n == 6 && !bad, "%d elements, %d of them out of order", n, bad);
  return 0;
}
"""
