PROPS = [
 dict(id="Q01", title="The head of a queue is its least element, and elements can be found and removed",
  statement="""Whatever is inserted, removed and popped in whatever order, the element that a priority queue (of events, of reactions, of tags in transit) returns by peek or pop is one of those with the least priority of all that it contains, where events are ordered by tag and reactions by index;
  a queue contains exactly the elements that were inserted and not popped or removed, and its size says how many these are. Each element knows its position while it is in the queue, so that removing it removes that element and no other. Searching for an element finds one with the same priority (and equal to it, if that is asked for) if and only if there is one. No
  function accesses its array beyond the elements, or inserts beyond the memory that was allocated. Peeking at or popping the tag of an empty queue yields FOREVER, and removing all elements up to a tag removes those and no others.""",
  over=["histories", "inputs"], quant="every path of every operation, for every content of the queue (as an inductive invariant)",
  why="A queue that is out of order shows only for particular shapes of the heap and particular sequences of insertions and removals, and then as an event that is handled late or never.",
  mechanism=[("insertion", "core/utils/pqueue_base.c:pqueue_insert"), ("removal", "core/utils/pqueue_base.c:pqueue_pop"), ("removal", "core/utils/pqueue_base.c:pqueue_remove"), ("search", "core/utils/pqueue_base.c:find_equal_same_priority"), ("tags", "core/utils/pqueue_tag.c:pqueue_tag_remove_up_to")],
  technique="path-sensitive typestate of the heap's hole with linear relations between indices over LLVM IR; return-value analysis of callbacks",
  rules=[("heap.queues", ["multi", "multi-tm", "gedf", "fed-cent", "fed-dec", "single", "single-tm", "rti-auth", "rti"])], need={"stores and positions of queue elements on paths": 100, "paths through functions of queues": 30, "paths through functions that queues call": 5},
  explain="""heap: pqueue_insert(), pqueue_pop() and pqueue_remove() have one element to place (the new one, or the last one), and one slot to fill (the hole). Each store into the array must fill the hole with the element to be placed, with the element of the parent slot, or with that of a child slot (which then is the hole); an element of the parent slot only if it was compared and is not less,
  that of a child only if it is within the queue, was compared and is not greater, and the other child is beyond the end or not less than it. On return, the element must have been placed, and above or below of it there must be none, or one that compared right (which of the two is needed follows from how it compares to the removed one). Indices are linear forms (twice and half of the hole),
  also across loops. Each element that is stored must be told its position before it is moved again or the function returns. The size changes by one, an insertion is below the allocated size. search: the recursive functions may return only an element compared as equal, or nothing if the position is beyond the end, its element is greater, or both halves below were searched.
  callback: functions passed to pqueue_init() (comparisons return -1, 0, 1 for less, equal, greater of the right operands, positions are read and written at the same place). queue: the functions that forward to these, by arguments, result and tags.""",
  note="All paths, in all builds. Elements are assumed not to change their priority while they are in a queue, not to be in a queue twice, and to be in the queue that they are removed from; that callers lock the queue is the subject of C01. pqueue_empty_into(), pqueue_print() and pqueue_dump() are not covered."),
]
