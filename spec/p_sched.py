MULTI, FEDS, SINGLE = ["MULTI"], ["FEDS"], ["SINGLE"]
PROPS = [
 dict(id="W01", title="What a sleeping thread waits for is announced before the lock is released",
  statement="""Whoever puts an event on the queue of an environment, or sets its stop tag, wakes up the threads that wait on that very environment
  before releasing the lock; so do the receipt of a grant from the coordinator, every change of the level up to which reactions may execute, the
  advance of the tag of a decentralised federate, and the release of a semaphore (the last three wake up all threads, as they may wait for different things). Starting a watchdog wakes
  up its thread unless that will wake up by itself no later than the new expiration; stopping or terminating it wakes it up if it is asleep.""",
  over=["schedules", "histories"], quant="every path from a change of what is waited for to the release of the lock",
  why="A missing wake-up only delays the program or makes it hang if another thread is asleep at that moment and nothing else wakes it up; with one environment and frequent events something always does.",
  mechanism=[("events", "core/threaded/reactor_threaded.c:lf_notify_of_event"), ("stop", "core/threaded/reactor_threaded.c:lf_request_stop"),
   ("grants and port status", "core/federated/federate.c:handle_tag_advance_grant"), ("semaphore", "core/utils/lf_semaphore.c:lf_semaphore_release"),
   ("watchdogs", "core/threaded/watchdog.c:lf_watchdog_start")],
  technique="path-sensitive typestate with function summaries over LLVM IR (obligation to signal before release)",
  rules=[("wake.announced", MULTI)], need={"wake-ups": 10, "changes that are waited for": 20},
  explain="""Insertions into an event queue and stores to stop tags, last_TAG, max_level_allowed_to_advance, semaphore counts and watchdog expirations create an obligation
  for the condition variable of the same object (told apart symbolically). A signal or broadcast on it under the same lock, before or after, discharges it; at a release of the lock,
  a wait, or the return of a root none may be left. Functions are summarised, so the wake-up may happen in a caller or a helper. A level that was written but not changed creates no obligation.""",
  note="""All paths of the multithreaded builds (without the adaptive scheduler). Changes made by the thread that would have to be woken up, and those before the program starts, are exempt by
  function name, with the reason. Scheduling enclaves with a local coordinator (LF_ENCLAVES) do not compile in this tree and are not covered."""),

 dict(id="S01", title="Every enabled reaction is queued and executed once, none is forgotten",
  statement="""At the start of a step, each reaction of each trigger that has an event at the current tag, each startup reaction at the start and each shutdown reaction at the stop tag is put on the reaction queue, and so is each reaction that depends on an output
  that a reaction produced, unless it is executed immediately after that reaction, is already on the queue, or its mode is inactive. A reaction is claimed atomically and inserted once, into the queue of its own level; each element of the queue is handed to one worker;
  once it was executed its reaction can be triggered again, and only then.""",
  over=["schedules", "inputs", "histories"], quant="every path that triggers, takes or finishes a reaction, and every loop over triggers and reactions",
  why="Two workers that trigger or take the same reaction must do so at the same moment to interfere; which reactions share triggers depends on the program.",
  mechanism=[("events", "core/reactor_common.c:_lf_pop_events"), ("outputs", "core/reactor_common.c:schedule_output_reactions"), ("startup, shutdown", "core/reactor_common.c:_lf_trigger_startup_reactions"),
   ("claiming", "core/threaded/scheduler_NP.c:lf_scheduler_trigger_reaction"), ("taking", "core/threaded/scheduler_NP.c:lf_sched_get_ready_reaction"), ("finishing", "core/threaded/scheduler_NP.c:lf_sched_done_with_reaction")],
  technique="path-sensitive typestate and loop coverage analysis over LLVM IR",
  rules=[("once.claim", MULTI + SINGLE), ("once.take", MULTI), ("once.done", MULTI + SINGLE), ("once.spread", MULTI + SINGLE), ("each.full", MULTI + SINGLE)],
  need={"places that claim a reaction": 1, "functions that trigger the reactions of a list": 2, "loops over arrays": 3},
  explain="""claim: where a reaction is inserted into a queue, its status must have been changed from inactive to queued by the same thread (by a compare-and-swap if there are threads), each claim must be followed by one insertion, at a slot reserved by an atomic increment of the index of its own
  level. take: the slot that is read must have been reserved by an atomic decrement, with the result not negative, and be cleared before it could be taken again. done: the status is set back between two reactions that are taken. spread: each element loaded from the lists of reactions of a trigger, and of startup and shutdown reactions,
  must be triggered, executed immediately, or be found NULL, queued or in an inactive mode, before the next one is loaded or the function returns. full: loops over these lists start at one end, leave only at the other, go in steps of one and look at each element.""",
  note="All paths in all builds of the core (without the adaptive scheduler). That insertions and removals of one level do not overlap is the barrier between levels. Startup and reset reactions of modes are subject of M02."),
 dict(id="S02", title="A reaction meets its deadline or its handler is called; outputs are passed on",
  statement="""When a reaction is taken from the reaction queue, or picked to be executed immediately, its function is called exactly once with the state of its own reactor if it has no deadline
  or meets it, that is if physical time is not after the time of the current tag of its environment plus the deadline and the deadline is not zero. Otherwise the deadline handler, if there is one, is called
  in its place, exactly once, and the function is not called. (In a federate with decentralised coordination, the STP handler may be called in its place, too.) Whatever was called, what depends on the outputs
  is triggered once, and before the reaction is reported as done. A reaction that checks its deadline while it executes, and has one, has the handler called only if the deadline was missed.""",
  over=["histories", "inputs", "schedules"], quant="every path from taking a reaction to being done with it",
  why="Which of the functions is called depends on how late the reaction is; tests run reactions without deadlines, and handlers without outputs.",
  mechanism=[("single-threaded", "core/reactor.c:_lf_do_step"), ("worker", "core/threaded/reactor_threaded.c:_lf_worker_do_work"),
   ("executed immediately", "core/reactor_common.c:schedule_output_reactions"), ("checked while executing", "lib/schedule.c:lf_check_deadline")],
  technique="path-sensitive typestate with linear relations between times over LLVM IR",
  rules=[("sched.turn", ["CORE"])], need={"functions that call user code": 3, "calls of user code on paths": 10},
  explain="""A reaction obtained from the scheduler or a priority queue, and any reaction one of whose functions is read, owes a call. Calls through its function, deadline_violation_handler and STP_handler
  fields are recognised by the field from which the called pointer was read; each must be justified by comparisons on the path (deadline against the difference of physical time and the time of the current tag, in any linear form), take
  the self pointer of the same reaction, and be followed by schedule_output_reactions() for it, once, before it is done with, another one is taken, or the function returns.""",
  note="All paths of functions that call a reaction's functions, in all builds of the core (without the adaptive scheduler). How long user code takes is not known; the deadline is checked when its turn comes."),
 dict(id="S03", title="User code of a reactor is called while holding the mutex of the reactor",
  statement="""Whenever the function, the deadline handler or the STP handler of a reaction, or the handler of a watchdog is called, the calling thread holds the mutex of the reactor that it belongs to, if that reactor has one
  (it does if it has watchdogs), so that no two of them access the state of the reactor at the same time.""",
  over=["schedules"], quant="every call of user code, on every path",
  why="A watchdog expires concurrently to reactions of its reactor; that the two overlap depends on the schedule.",
  mechanism=[("reactions", "core/reactor_common.c:_lf_invoke_reaction"), ("handlers", "core/reactor_common.c:_lf_invoke_violation_handler"), ("watchdogs", "core/threaded/watchdog.c:watchdog_thread_main")],
  technique="path-sensitive lockset analysis of indirect calls over LLVM IR",
  rules=[("sched.lock", MULTI)], need={"functions that call user code": 3, "calls of user code on paths": 10},
  explain="""At each call through the function, deadline_violation_handler or STP_handler field of a reaction, or the watchdog_function field of a watchdog, the reactor_mutex of the object passed to it must be held, or have been found to be NULL.
  A handler called from within a reaction (lf_check_deadline) is called under the lock taken for the reaction.""",
  note="All paths of the multithreaded builds (without the adaptive scheduler). Callbacks that the user registers with the platform, and code run at start-up before threads exist, are not user code of a reactor."),
 dict(id="S05", title="A reaction whose input comes too late has its STP handler called, once",
  statement="""In a federate with decentralised coordination, a reaction is marked as late when it is triggered by a message whose intended tag is earlier than the current tag (even if it was triggered before, by something that is in time), or
  by the output of a reaction that is late and has not handled that; nothing else removes the mark before its turn. When its turn comes, a reaction that is late and does not miss its deadline has its STP handler called instead of its function,
  if it has one and is not an input reaction of the runtime; a reaction that is not late never does. A violation that was handled is not passed on to what depends on its outputs, one that was not handled is, and the mark is
  removed before the reaction is done with, also if its deadline was missed.""",
  over=["histories", "inputs"], quant="every path on which a reaction is triggered, executed or its outputs are passed on",
  why="The handler is called or forgotten depending on which of several events comes late, and in which order they are seen; a mark that is left over shows one tag later.",
  mechanism=[("marking", "core/reactor_common.c:_lf_pop_events"), ("marking", "core/reactor_common.c:_lf_insert_reactions_for_trigger"),
   ("passing on", "core/reactor_common.c:schedule_output_reactions"), ("handling", "core/threaded/reactor_threaded.c:_lf_worker_handle_STP_violation_for_reaction")],
  technique="path-sensitive typestate with tag comparisons over LLVM IR",
  rules=[("sched.stp", ["fed-dec"])], need={"functions that call user code": 2, "calls of user code on paths": 10},
  explain="""is_STP_violated of each reaction is followed: in functions that put reactions on the queue for an event, each reaction of the trigger must be marked unless the path found the intended tag to be NEVER or not before the current tag; in
  schedule_output_reactions() each reaction that depends on an output must be marked unless the path found the producing one in time. Calls of function and STP handler must agree with what the path found in the flag, and the
  flag must be clear or pending, as stated, where outputs are passed on and where the reaction is done with.""",
  note="All paths of the build with decentralised coordination. Whether a message is late is taken from its intended tag, as received."),
 dict(id="S04", title="Reactions execute level by level, and no worker is left asleep",
  statement="""A worker changes the level at which reactions are executed, or advances the tag, only while all other workers are counted as idle. A level is left only if it has no reactions that were not taken, the tag is advanced only if no level has, and then execution starts with the first level again,
  so a reaction begins only after all reactions of lower levels of the same tag are done (with the GEDF scheduler, those with a deadline that is not later). In a federate, a level is started only after it is known whether the input ports of that level are present. A worker without work is counted as idle before it
  goes to sleep, and the last one does not go to sleep; those that are no longer counted as idle, except itself, are woken up, exactly that many. At the stop tag, and only then, all workers are told to stop and woken up.""",
  over=["schedules", "histories"], quant="every path of a worker from one reaction to the next",
  why="A level that begins too early only matters if a reaction of the level before takes long enough; a worker that is counted wrongly, or woken up too early, makes the program hang at some later time under some schedules.",
  mechanism=[("default scheduler", "core/threaded/scheduler_NP.c:lf_sched_get_ready_reaction"), ("GEDF scheduler", "core/threaded/scheduler_GEDF_NP.c:lf_sched_get_ready_reaction")],
  technique="path-sensitive typestate over LLVM IR, with relations between counters",
  rules=[("levels.np", ["multi", "multi-tm", "fed-cent", "fed-dec"]), ("levels.gedf", ["gedf"])],
  need={"changes of level, tag and idle workers on paths": 20},
  explain="""np: stores to next_reaction_level, executing_reactions, number_of_idle_workers and calls of _lf_sched_advance_tag_locked() require that the atomic increment of the number of idle workers on the path yielded the number of workers. The level goes up by one, together with taking the queue of exactly that level (after
  lf_stall_advance_level_federation() for it, in a federate); the next one is taken only if the first element of this one was NULL; back to zero, and the tag advanced, only if it is above the last one. Before a worker goes on to take a reaction it must have acquired the semaphore, or, if it was the last one, taken n off the number of
  idle workers and then released the semaphore n-1 times, or set should_stop and then released it for all others. gedf: the same with the condition variable and the environment mutex: the reaction handed out was found to have the current level, which goes up only if the head of the queue has another one, and the tag is advanced only if the queue is empty.""",
  note="All paths of lf_sched_get_ready_reaction() of both schedulers (not the adaptive one). That reactions put their outputs into the queues before their worker becomes idle is the subject of S01 and S02; that levels order dependent reactions is established by the compiler."),
]
