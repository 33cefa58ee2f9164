ALL = ["single-tm", "multi-tm", "fed-cent"]
PROPS = [
 dict(id="M01", title="Reactions of an inactive mode are neither put on the queue nor executed",
  statement="""A reaction that belongs to a mode is put on the reaction queue, or executed immediately after the reaction that triggers it, only if its mode is active at that time. (A reaction that is in no mode may always be.) A reaction that runs because another one produced its input,
  because an event, a startup, a reset or a timer triggers it, or because a port is known, is under this rule alike. At shutdown, the shutdown reactions of the modes that had a startup are executed although these modes may be inactive, and no others.""",
  over=["inputs", "histories"], quant="every path that triggers or executes a reaction",
  why="It must hold for every combination of modes and triggers; the unit tests do not build with modal reactors at all.",
  mechanism=[("activity", "core/modal_models/modes.c:_lf_mode_is_active"), ("triggering", "core/reactor.c:_lf_trigger_reaction"), ("triggering (threads)", "core/threaded/reactor_threaded.c:_lf_trigger_reaction"),
   ("immediate execution", "core/reactor_common.c:schedule_output_reactions"), ("shutdown", "core/modal_models/modes.c:_lf_handle_mode_shutdown_reactions")],
  technique="path-sensitive typestate over LLVM IR, requirements propagated to callers",
  rules=[("mode.inactive", ALL)], need={"sites on paths": 3},
  explain="""Each call that puts a reaction on the queue of the scheduler, and each call through a reaction's function pointers, must lie on paths where the reaction's mode was read as NULL, the ACTIVE flag of its mode was read as set, or the reaction was obtained from the scheduler. Where the reaction is
  a parameter of a function, the requirement passes to all of its callers. Only lf_enqueue_port_absent_reactions is exempt: the reactions it triggers are those of the federate itself, which are in no mode.""",
  note="The modal configurations (single-threaded, multithreaded, federated). "),
 dict(id="M02", title="Exactly current modes within active modes are active; transitions are complete",
  statement="""A mode is active only if it is the current mode of its reactor and the mode that encloses this reactor, if any, is active; after the transitions of a step, every current mode whose enclosing mode is active is active. A transition enters the mode that was requested, once; the mode that is left is not active
  any more and the time when it was left is recorded. A mode that is entered for the first time has its startup reactions requested; a mode that had its startup does not have it again, and that it had it is recorded. The reset reactions of the mode that is entered are requested if the transition is a
  reset, and are not if it is not. A mode that becomes active has these requests carried out in the next microstep.""",
  over=["inputs", "histories"], quant="every sequence of transitions, of every nesting of modal reactors",
  why="The flags of a mode depend on all earlier transitions of its reactor and of the reactors that contain it; no test has any mode.",
  mechanism=[("transitions", "core/modal_models/modes.c:_lf_process_mode_changes"), ("startup and reset", "core/modal_models/modes.c:_lf_handle_mode_startup_reset_reactions"), ("initial modes", "core/modal_models/modes.c:_lf_initialize_mode_states")],
  technique="path-sensitive typestate with known bits of flag words over LLVM IR",
  rules=[("mode.flags", ALL)], need={"functions analysed": 2, "sites on paths": 3},
  explain="""At every store to the flags of a mode, the bits that are known to be set or cleared are computed from the masks in the stored value and the tests on the path. Setting ACTIVE requires that the mode is the one stored as current and that the parent mode was read as NULL or active. At a store to current_mode
  the old mode's ACTIVE bit must have been cleared, its deactivation_time set to the current time, and the new value read from next_mode. By the end of the iteration next_mode must be NULL, NEEDS_STARTUP set unless HAD_STARTUP is, NEEDS_RESET set if and only if the transition is a reset; ACTIVE must be set unless the parent
  is inactive. Clearing NEEDS_STARTUP requires setting HAD_STARTUP. triggered_reactions_request must be extended by both kinds of requests.""",
  note="Assumes that the array of modal reactors is ordered from the outside in, as the generated code provides it. State variables are reset by a copy that is not examined."),
 dict(id="M03", title="Events of inactive modes wait for their mode; reset restarts its timers once",
  statement="""After a step with transitions, no event for an inactive mode remains to be handled: it is suspended, and no event of an active mode is. When a mode is entered with its history, each of its suspended events is scheduled with the same trigger and payload, after the time that remained when the mode
  was left (in the next microstep if none did). When it is entered with a reset, its suspended events are dropped, and each of its timers is started again, once, with its offset; a timer without a period is, too. No event of another mode is affected.""",
  over=["inputs", "histories"], quant="every set of pending events at every transition",
  why="The events that are pending when a mode is left, and the time that passes until it is entered again, are arbitrary; no test has any mode.",
  mechanism=[("suspension and resumption", "core/modal_models/modes.c:_lf_process_mode_changes"), ("timers at the start", "core/reactor_common.c:_lf_initialize_timer")],
  technique="path-sensitive typestate with linear forms of times over LLVM IR",
  rules=[("mode.events", ALL)], need={"functions analysed": 1, "sites on paths": 3},
  explain="""Each event that is read from the array of the event queue in the function that suspends events must, by the next iteration, have been suspended or be known to belong to an active mode or none; a suspended one must be known to belong to an inactive mode. The time of an event that is scheduled again is compared, as a
  linear form, with the current time plus the event's time minus the time when the mode was left (the start time if it never was), and the microstep with 0, or with the next one if nothing remains. Before an event is recycled on a history transition it must have been scheduled again; on a reset it must be one of
  no timer, of a timer without a period (which must be restarted from the list of timers), or restarted. A timer is restarted from one place only, with its own offset, and only if its mode is the one that is entered.""",
  note="Events of a mode nested in one that is entered again by history, without a transition of its own, are not resumed by this code, nor are pending events dropped if a mode is entered from itself; the statement is about suspended events of the mode entered."),
]
