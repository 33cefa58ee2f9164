MULTI = ["MULTI"]
PROPS = [
 dict(id="D01", title="A watchdog expires once per start, when its time has come and not before",
  statement="""Starting a watchdog sets its expiration to the time of the current tag plus its minimum expiration plus the additional timeout. Its handler is called only if physical time has reached the expiration in effect at that moment
  (the last one set), and it has not been stopped or terminated since; it is called once per start, and a start by the handler itself counts as a new one. A watchdog that was told to terminate terminates, even if it is started again. The mutex that
  the watchdogs of a reactor share is initialized before the thread of any of them is started, and freed once.""",
  over=["schedules", "histories"], quant="every path that starts, stops, terminates or expires a watchdog",
  why="Whether a watchdog is stopped, restarted or terminated just before it expires, or from within its handler, depends on the schedule; no test uses watchdogs.",
  mechanism=[("expiration", "core/threaded/watchdog.c:watchdog_thread_main"), ("waiting", "core/threaded/watchdog.c:watchdog_wait"), ("start", "core/threaded/watchdog.c:lf_watchdog_start"),
   ("threads and mutexes", "core/threaded/watchdog.c:_lf_initialize_watchdogs")],
  technique="path-sensitive typestate with relations between times over LLVM IR",
  rules=[("dog.handlers", MULTI)], need={"functions that start, stop or expire watchdogs": 3, "starts and expirations on paths": 2},
  explain="""At each call through watchdog_function, comparisons made on the path since the lock was last released (by waiting or unlocking) must establish that a reading of the physical clock is not before the expiration, that the expiration was not NEVER, and that
  terminate was false, and the expiration must have been set to NEVER before the call and not after it without a new reading of the clock. Values stored to expiration are compared as linear forms. terminate is never set to false once threads may run;
  initialization of a mutex after the creation of a thread in the same function, and freeing it without clearing the reference to it, are reported.""",
  note="All paths of the multithreaded builds. That accesses are under the mutex is C01 and S03, that a sleeping thread is woken up is W01. How late the handler is called depends on the platform."),
]
