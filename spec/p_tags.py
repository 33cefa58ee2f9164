ALL = ["MULTI", "SINGLE"]
PROPS = [
 dict(id="T01", title="Logical time only moves forward, and only to the earliest pending tag",
  statement="""The current tag of an environment only ever changes to a strictly later tag. In the threaded runtime that tag is
  the one found at the head of the event queue (or the stop tag) by a look at the queue made since the lock was last
  released; it is set only after physical time has reached it (unless the fast option is set), after every barrier raised by
  a message being received has been passed, and, with centralized coordination, after the coordinator granted the requested
  tag. Before the tag's events are popped, the presence of ports and actions is reset for it, and its events are popped
  before the lock is released.""",
  over=["inputs", "schedules", "programs"],
  quant="every path through the functions that write the current tag, in all build configurations",
  why="Which tag is at the head can change during any of the waits in between; only particular interleavings of asynchronous scheduling, message arrival and stop requests with those waits expose a stale or skipped re-check.",
  mechanism=[("advancing, threaded", "core/threaded/reactor_threaded.c:_lf_next_locked"), ("advancing, single-threaded", "core/reactor.c:next"),
   ("the write", "core/reactor_common.c:_lf_advance_tag"), ("earliest event", "core/threaded/reactor_threaded.c:get_next_event_tag"),
   ("waiting", "core/threaded/reactor_threaded.c:wait_until"), ("safe time of arrival", "core/federated/federate.c:lf_wait_until_time")],
  technique="path-sensitive dataflow over tags and their order",
  rules=[("tags.advance", ALL), ("tags2.next_event", ["MULTI"]), ("tags3.wait", ALL)], need={"tag writes analysed": 20},
  explain="""All paths to each write of the current tag are followed with the facts that comparisons of tags established
  (lf_tag_compare and comparisons part by part), with the state of the last look at the queue, wait, barrier and grant, and
  with what each lock release invalidates. The new tag must be known to be later than the old one; the look must postdate the
  last release; the wait must have returned complete for that very tag; get_next_event_tag() must return the smaller of the
  head's tag and the stop tag; wait_until() may report completion only on paths where the fast option is set, the timed wait on
  that time timed out, or what was left was less than the least time worth sleeping.""",
  assume=["microsteps do not wrap around", "a wait shorter than MIN_SLEEP_DURATION (10 microseconds) may be skipped, as documented"],
  note="Covers every path of the functions concerned; ordering facts between tags are kept exactly, facts between other values by intervals and pairwise comparisons."),
 dict(id="T02", title="The stop tag bounds execution, only ever drops, and is where shutdown happens",
  statement="""The stop tag of an environment is only ever lowered. It is only set to a tag after the current one. No environment
  advances beyond its stop tag, nor advances again once its current tag has reached it; the shutdown reactions are triggered
  when, and only when, the current tag reaches the stop tag; and execution ends only after the stop tag was reached.""",
  over=["inputs", "schedules", "programs"],
  quant="every path through every function that writes the stop tag, requests a stop, advances the tag or ends execution",
  why="A stop can be requested or agreed on at any moment, also while a thread waits to advance; the tests do not stop asynchronously.",
  mechanism=[("setting the stop tag", "core/reactor_common.c:lf_set_stop_tag"), ("requesting", "core/threaded/reactor_threaded.c:lf_request_stop"),
   ("agreement", "core/federated/federate.c:handle_stop_granted_message"), ("starvation", "core/threaded/reactor_threaded.c:_lf_next_locked"),
   ("ending", "core/threaded/scheduler_sync_tag_advance.c:should_stop_locked"), ("single-threaded step", "core/reactor.c:_lf_do_step")],
  technique="path-sensitive dataflow over tags and their order",
  rules=[("tags2.stopset", ALL), ("tags3.shutdown", ALL)], need={"paths to shutting down": 20},
  explain="""At each write of a stop tag the new one must be known to be at most the old one; at each call of lf_set_stop_tag()
  the argument must be known to be after the current tag. At each advancement the old or the new tag must be known to be before
  the stop tag and the new one not after it; on return from advancing, either the shutdown reactions were triggered or the
  current tag is known to be before the stop tag; they are triggered only where the opposite is known. The functions that end
  execution may say so only where the current tag is known to have reached the stop tag.""",
  assume=["lf_request_stop(), in an unfederated program, relies on the barrier it raised to keep all environments at or before the greatest current tag"],
  note="As for T01. That the shutdown reactions then run is part of the scheduler's duties."),
 dict(id="T03", title="Events are only queued for the future, and live ones not past the stop tag",
  statement="""Whatever the delay, minimum spacing, spacing policy, kind of action (logical or physical, also when physical time lags
  behind logical time) and conflicts with events already queued, an event is put on the event queue only with a tag that is
  strictly later than the current tag of its environment. An event that triggers something is put on the queue only if its tag
  is not after the stop tag.""",
  over=["inputs", "programs", "histories"],
  quant="every path to every insertion into an event queue, in all build configurations",
  why="The space of delays, spacings, policies, queued events and relations of physical to logical time is not sampled by tests beyond a few schedules.",
  mechanism=[("scheduling an action", "lib/schedule.c:lf_schedule_trigger"), ("scheduling at a tag", "core/reactor_common.c:_lf_schedule_at_tag"),
   ("timers", "core/reactor_common.c:_lf_initialize_timer"), ("periodic timers", "core/reactor_common.c:_lf_pop_events"),
   ("resumed events of modes", "core/modal_models/modes.c:_lf_process_mode_changes"), ("messages", "core/federated/federate.c:schedule_message_received_from_network_locked")],
  technique="path-sensitive dataflow over tags and their order",
  rules=[("tags2.future", ALL)], need={"paths to an insertion": 100},
  explain="""All paths to each pqueue_tag_insert() on an event queue are followed with the order facts between tags; the inserted
  event's tag must be known to be later than the current tag on every one, and, unless the event is known to trigger nothing,
  not after the stop tag.""",
  assume=["delays, offsets and periods in the program's triggers are not negative", "microsteps do not wrap around", "the dummy event queued while waiting for a grant lies in the physical future"],
  note="As for T01."),
 dict(id="T04", title="The barrier on the tag holds logical time back for messages being received",
  statement="""While anyone has asked that logical time stay before a tag, the barrier stays at or before that tag (or, if that tag has
  already been reached, at the next microstep): a further request never moves it later, and withdrawing one request removes it only
  when it was the last. A thread is let through the barrier only if no request is left or the tag it wants (or the stop tag) is
  before the barrier, and withdrawing the last request wakes all threads that wait at it. The caller learns whether it had to
  wait.""",
  over=["schedules", "histories"],
  quant="every path through the operations of the barrier",
  why="Needs several messages in flight at once and a thread waiting to advance between their headers and their payloads; no test runs a federate.",
  mechanism=[("raise", "core/threaded/reactor_threaded.c:_lf_increment_tag_barrier_locked"), ("withdraw", "core/threaded/reactor_threaded.c:_lf_decrement_tag_barrier_locked"),
   ("pass", "core/threaded/reactor_threaded.c:_lf_wait_on_tag_barrier"), ("message being received", "core/federated/federate.c:handle_tagged_message"),
   ("stop request", "core/threaded/reactor_threaded.c:lf_request_stop")],
  technique="path-sensitive dataflow over tags and their order",
  rules=[("tags3.barrier", ["MULTI"])], need={"barrier operations": 3},
  explain="""On every return path of the three operations, the symbolic new values of the count and of the horizon are compared with
  the old ones and with the order facts of the path.""",
  note="Exact for the three operations; that every raise is followed by its withdrawal is not part of this property."),
 dict(id="T05", title="Physical time never runs backwards, and sleeping uses the clock that is read",
  statement="""A reading of the physical clock is never less than one returned before it, to whichever thread. Sleeping until a physical
  time subtracts exactly the clock synchronization offset that reading the clock adds, waits for the condition it was given, and
  reports a timeout exactly when the wait timed out.""",
  over=["schedules", "inputs"],
  quant="every path through reading the clock and through the timed waits, in all build configurations",
  why="Needs the system clock to step back, threads to race on the last reading, or clock synchronization to change the offset.",
  mechanism=[("reading", "core/clock.c:lf_clock_gettime"), ("waiting", "core/clock.c:lf_clock_cond_timedwait"), ("sleeping", "core/clock.c:lf_clock_interruptable_sleep_until_locked"),
   ("offset", "core/federated/clock-sync.c:clock_sync_add_offset"), ("platform", "low_level_platform/impl/src/lf_POSIX_threads_support.c:_lf_cond_timedwait")],
  technique="path-sensitive dataflow over values and their order",
  rules=[("tags3.clock", ALL)], need={"updates of the last physical time": 2},
  explain="""Every compare-and-swap of the last reading must install a value known to be at least the one replaced, and the value
  returned must be the one installed; the argument of each platform sleep must be the requested time with the offset subtracted; the
  two adjustments, as linear combinations of what they read, must be inverse; the platform's timed wait returns LF_TIMEOUT on exactly
  the paths where pthread_cond_timedwait() returned ETIMEDOUT.""",
  note="Exact for the Linux platform layer."),
 dict(id="T06", title="Tags are totally ordered, and tag arithmetic saturates instead of wrapping",
  statement="""Comparing two tags orders them by time and then by microstep, for every pair. Adding times, delaying a tag and adding tags
  never overflow: beyond the range of time the result is FOREVER or NEVER, which also absorb; a delayed tag whose time
  reaches FOREVER is FOREVER_TAG. Delaying a tag by zero yields its
  next microstep, by a positive interval microstep zero of the later time, and by a negative one the tag itself; the strict delay is
  the tag just before the delayed one whenever the interval is positive and the result finite. Adding a tag with a positive time
  resets the microstep of the first.""",
  over=["inputs"],
  quant="all arguments",
  why="Quantifies over all pairs of 96-bit values; whether signed overflow is harmless depends on the compiler's optimisation level, and the tests build without optimisation.",
  mechanism=[("compare", "core/tag.c:lf_tag_compare"), ("add times", "core/tag.c:lf_time_add"), ("delay", "core/tag.c:lf_delay_tag"),
   ("strict delay", "core/tag.c:lf_delay_strict"), ("add tags", "core/tag.c:lf_tag_add")],
  technique="path-sensitive symbolic dataflow: result expression and path facts of each return",
  rules=[("tags3.arith", ALL + ["rti"])], need={"return paths of tag operations": 30},
  explain="""Each return path of the five operations yields the returned expression over the arguments and the facts established by
  the branches taken; the expression must be the one that the rule prescribes under these facts, and a sum must be known not to
  overflow before it is computed.""",
  note="Exact for these operations; relies on no value of the inputs being sampled."),
]
