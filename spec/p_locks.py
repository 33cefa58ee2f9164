PROPS = [
 dict(id="C01", title="Internal locks are released exactly as often as they are acquired, on every path",
  statement="""Whatever an operation of the runtime, of a federate or of the coordinator does, including failing early, it
  leaves every internal lock as its contract says: what it acquired it releases before it returns, exactly once, and it
  never releases a lock it does not hold. No error path, early return or rarely taken branch may leave a lock held or
  release one twice.""",
  over=["inputs", "schedules", "fault_sequences"],
  quant="every path through every function of the threaded runtime, the federate runtime and the RTI, including those taken only on errors",
  why="A leaked lock shows only on the path that leaks it (a malformed message, a failed read, a late event) and only when another thread wants the lock; the tests run one thread and no federate.",
  mechanism=[("critical sections of the scheduling API and of the runtime", "core/threaded/reactor_threaded.c:lf_critical_section_enter"),
   ("message handlers of the federate", "core/federated/federate.c:handle_tagged_message"),
   ("message handlers of the RTI", "core/federated/RTI/rti_remote.c:federate_info_thread_TCP"),
   ("schedulers", "core/threaded/scheduler_NP.c:lf_sched_get_ready_reaction"), ("tracing", "trace/impl/src/trace_impl.c:lf_tracing_tracepoint")],
  technique="path-sensitive interprocedural lock-state dataflow over LLVM IR",
  rules=[("locks.balance", ["MULTI", "RTIS", "SINGLE"])], need={"lock call sites": 100},
  explain="""Every function of each build configuration is analysed along all its paths with the set of locks it holds
  relative to its entry (recursive counts); callees that release a lock they did not take put that requirement on their
  callers, up to the thread bodies and the public API. A return with a non-empty set, or an entry point that releases what
  it does not hold, is a violation.""",
  assume=["locking an initialised mutex succeeds", "the adaptive scheduler is left out: ownership of its optional lock is recorded in a per-worker array indexed at run time"],
  note="Sound for the paths of the analysed configurations up to the engine's treatment of aliasing (locks are told apart by access path); the adaptive scheduler is not covered."),
 dict(id="C02", title="Internal locks are always nested in one consistent order",
  statement="""No two threads of the runtime, of a federate or of the coordinator can deadlock by acquiring two internal
  locks in opposite orders. Over the whole program, the relation 'acquired while holding' between the classes of internal
  locks has no cycle.""",
  over=["schedules", "programs"],
  quant="all interleavings of all threads, over all call chains that nest two acquisitions",
  why="Opposite nesting deadlocks only under one interleaving of two threads; the tests never run two threads that contend.",
  mechanism=[("environment mutex and outbound socket mutex", "core/federated/federate.c:handle_stop_request_message"),
   ("environment mutexes of several enclaves", "core/threaded/reactor_threaded.c:_lf_increment_tag_barrier"),
   ("RTI mutex", "core/federated/RTI/rti_remote.c:rti_mutex"), ("trace mutex", "trace/impl/src/trace_impl.c:trace_mutex")],
  technique="interprocedural lock-order graph over LLVM IR",
  rules=[("locks.order", ["MULTI", "RTIS"])], need={"nesting edges": 8},
  explain="""For every acquisition on every path the classes of locks held there and, through the call graph, by the
  callers are recorded as edges held -> acquired; the graph of each configuration must be acyclic.""",
  assume=["locks of one class (for instance the mutexes of two environments) are not ordered against each other"],
  note="Complete for direct and summarised calls; calls through function pointers of user code are not followed."),
 dict(id="C03", title="Waiting releases the one lock it must and re-tests its condition on waking",
  statement="""A thread that waits for a condition holds exactly the lock that protects that condition, once, and no other
  internal lock, so that the thread that must establish the condition can always run. A thread woken from an untimed wait
  acts only after testing again that the condition it waited for holds, so spurious wake-ups and wake-ups meant for others
  are harmless.""",
  over=["schedules"],
  quant="every wait on a condition variable, in every context it can be reached from",
  why="Waiting with a second lock, or without re-testing, misbehaves only when the wake-up is spurious or the waker needs that lock; no test waits on a condition with two threads.",
  mechanism=[("barrier on the advancement of the tag", "core/threaded/reactor_threaded.c:_lf_wait_on_tag_barrier"),
   ("waiting for a grant", "core/federated/federate.c:lf_send_next_event_tag"), ("waiting for inputs of a level", "core/federated/federate.c:lf_stall_advance_level_federation_locked"),
   ("waiting for start times", "core/federated/RTI/rti_remote.c:handle_timestamp"), ("waiting for pending federates", "core/federated/RTI/rti_remote.c:notify_tag_advance_grant"),
   ("semaphore", "core/utils/lf_semaphore.c:lf_semaphore_acquire"), ("watchdogs", "core/threaded/watchdog.c:watchdog_wait")],
  technique="interprocedural lock contexts plus a control-flow rule at each wait",
  rules=[("guards.waits", ["MULTI", "RTIS"])], need={"wait call sites": 20},
  explain="""The condition variable of each wait is matched with the mutex it was initialised with; on every path from a
  thread body or API function to the wait that mutex must be held exactly once (the mutexes are recursive) and no other.
  After an untimed wait, every path must reach a branch on memory read after the wait from which the wait can be
  re-entered, before it does anything else (calls other than logging, stores to shared memory, return).""",
  note="All wait sites of the analysed configurations; timed waits are exempt from the re-test because their callers treat waking early as a reason to start over."),
 dict(id="C04", title="Shared runtime state is only touched under the lock that protects it",
  statement="""Once several threads of a program exist, its event queue, its recycled events, its current and stop tag, the
  barrier on advancing the tag, token reference counts and free lists, suspended events of modes, and a federate's record of
  granted and announced tags are only accessed while the lock that protects them is held (for the tags: modified).""",
  over=["schedules", "programs"],
  quant="every access on every path from every thread body, callback and public entry point of the threaded and federated runtimes",
  why="An unprotected access corrupts state only when two threads hit it at once; the tests use one thread.",
  mechanism=[("critical section around scheduling", "core/threaded/reactor_threaded.c:lf_critical_section_enter"), ("event queue", "core/reactor_common.c:_lf_schedule_at_tag"),
   ("asynchronous scheduling", "lib/schedule.c:lf_schedule_token"), ("token accounting", "core/lf_token.c:_lf_done_using"),
   ("tag barrier", "core/threaded/reactor_threaded.c:_lf_decrement_tag_barrier_locked"), ("grants", "core/federated/federate.c:handle_tag_advance_grant")],
  technique="interprocedural lockset analysis against a table of guarded state",
  rules=[("guards.core", ["MULTI"])], need={"accesses to guarded state": 200},
  explain="""A table names the guarded fields, globals and containers and the lock class of each; every load, store, block
  copy or call that touches one of them is followed up the call graph until the lock is held or a thread body / API function
  is reached without it.""",
  assume=["initialisation and teardown functions named in the checker run while a single thread exists", "functions documented to require the lock may assume it when the configuration does not call them"],
  note="The table is fixed; state not listed (for instance port values, which the level order protects) is not decided here."),
 dict(id="C05", title="The coordinator's shared records are only touched under its lock",
  statement="""While the federation runs, the coordinator's records of its federates (connection state, granted, completed and
  announced tags, in-transit messages, stop requests, proposed start times) are only accessed, or for connection state and
  sockets only modified, while holding the coordinator's one lock. This holds for every message type and every failure of a
  connection.""",
  over=["schedules", "fault_sequences"],
  quant="every access on every path from every thread of the coordinator",
  why="The coordinator runs one thread per federate; its tests run one thread and no connection.",
  mechanism=[("per-federate thread", "core/federated/RTI/rti_remote.c:federate_info_thread_TCP"), ("grant computation", "core/federated/RTI/rti_common.c:notify_advance_grant_if_safe"),
   ("stop requests", "core/federated/RTI/rti_remote.c:handle_stop_request_message"), ("forwarding", "core/federated/RTI/rti_remote.c:handle_timed_message")],
  technique="interprocedural lockset analysis against a table of guarded state",
  rules=[("guards.rti", ["RTIS"])], need={"accesses to guarded state": 60},
  explain="""As for C04, for the RTI program and its single mutex. The entry point main is exempt: what it does without the
  lock precedes the thread of the federate concerned or follows the end of all threads.""",
  note="The table is fixed; reads of connection state and of sockets are not required to hold the lock."),
]
