MULTI, FEDS, SINGLE = ["MULTI"], ["FEDS"], ["SINGLE"]
PROPS = [
 dict(id="P01", title="What is present at a tag is noted and is absent again at the next tag",
  statement="""Whenever a port is set or an action or timer has an event at the current tag, it is marked as present, and the mark is noted in a place of its own, within the space there is. When the tag is advanced, every mark that was
  noted is removed before anything is marked at the new tag, and every mark there is if more were made than could be noted. So a reaction sees an input or action as present if and only if something was sent to it at the current tag.
  A channel of a sparse multiport that is set is also recorded, once per tag even if it is set several times, unless there is no space left, in which case the record is given up for that tag, so that iterating over the
  multiport visits each channel that is present exactly once.""",
  over=["inputs", "schedules", "histories"], quant="every path that marks something as present, and every way to start a step",
  why="Several workers mark ports at the same time, and how many are marked at a tag depends on the program and its inputs; a mark that is lost is seen one tag later, by a reaction triggered by something else.",
  mechanism=[("ports", "core/threaded/reactor_threaded.c:lf_set_present"), ("ports, single-threaded", "core/reactor.c:lf_set_present"), ("events", "core/reactor_common.c:_lf_pop_events"), ("messages", "core/reactor_common.c:_lf_insert_reactions_for_trigger"),
   ("start of a step", "core/reactor_common.c:_lf_start_time_step")],
  technique="path-sensitive typestate and loop coverage analysis over LLVM IR",
  rules=[("present.mark", MULTI + SINGLE), ("present.reset", MULTI + SINGLE), ("present.sparse", MULTI + SINGLE), ("present.order", MULTI + SINGLE), ("each.present", MULTI + SINGLE)],
  need={"functions that mark something as present": 2, "marks on paths": 4, "paths through the start of a step": 2, "functions that set a port": 1, "advances of the tag on paths": 1},
  explain="""mark: a function that sets the flag of a port or the status of a trigger must store the address of that flag at an index obtained by an atomic increment of the number of marks (if there are threads), if the index is less than the size of the array and only then. reset: on each path through
  _lf_start_time_step() a loop must clear the flags that the elements of the array of marks point to, from the first to the last one; if the number of marks may exceed the size, those of the array of all flags, up to its size; then the number of marks is set to zero. sparse: the index into
  a record must be reserved by an increment, be less than its capacity, and hold the channel of the port, on paths where the port was not present before. order: _lf_advance_tag() must be followed by _lf_start_time_step() before marks are made.""",
  note="""All paths in all builds of the core (without the adaptive scheduler). The mark of a periodic timer is not noted as nothing else produces events for it. Marks of ports that receive messages from other federates are reset by
  lf_reset_status_fields_on_input_port_triggers(), which is the subject of other properties."""),
]
