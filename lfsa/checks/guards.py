"""Guarded state, condition-variable discipline, user code and locks: rules over lock contexts."""
from .. import flow, ir
from ..common import *
from . import context, locks
from .context import Context, chain_text
from .locks import lockclass_op

ENV = "environment_t.mutex"
OUT = "@lf_outbound_socket_mutex"
RTI = "@rti_mutex"
CRIT = (ENV, "@global_mutex")
WAITS = {"lf_cond_wait", "_lf_cond_timedwait", "pthread_cond_wait", "pthread_cond_timedwait",
         "lf_clock_cond_timedwait"}
WRAP = {"lf_cond_wait", "_lf_cond_timedwait", "lf_clock_cond_timedwait"}    # thin wrappers around the primitive
MEMCPY = ("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")


def is_memcpy(name):
    return bool(name) and name.startswith(MEMCPY)


def keyfields(path):
    """the steps of a path that a table may be keyed by: the last field or global, and the field it is part of (a
    tag's time and microstep belong to the tag's field)"""
    return [s for s in path if s[0] != "*"]


# (struct, field) or ("@", global) -> (lock classes, any of which will do, operations: w = writes, rw)
CORE = {
    ("environment_t", "current_tag"): ((ENV,), "w"),
    ("environment_t", "stop_tag"): ((ENV,), "w"),
    ("environment_t", "barrier"): ((ENV,), "rw"),
    ("environment_t", "_lf_handle"): ((ENV,), "rw"),
    ("trigger_t", "last_known_status_tag"): ((ENV,), "w"),
    ("@", "_latest_tag_completed"): ((ENV,), "rw"),
    ("@", "_lf_suspended_events_head"): ((ENV,), "rw"),
    ("@", "_lf_unsused_suspended_events_head"): ((ENV,), "rw"),
    ("@", "_lf_tokens_allocated_in_reactions"): (CRIT, "rw"),
    ("@", "_lf_token_recycling_bin"): (("@global_mutex",), "rw"),
    ("@", "_lf_token_templates"): (("@global_mutex",), "rw"),
    ("lf_token_t", "ref_count"): (CRIT, "rw"),
    ("federate_instance_t", "last_TAG"): ((ENV,), "w"),
    ("federate_instance_t", "is_last_TAG_provisional"): ((ENV,), "w"),
    ("federate_instance_t", "last_sent_NET"): ((ENV,), "w"),
    ("federate_instance_t", "last_sent_LTC"): ((ENV,), "rw"),
    ("federate_instance_t", "received_stop_request_from_rti"): ((OUT,), "rw"),
    ("@", "_lf_count_payload_allocations"): (("@global_mutex",), "w"),
    ("@", "_lf_count_token_allocations"): (("@global_mutex",), "w"),
}
# containers of an environment: calls that take one of them
CONTAINERS = {("environment_t", "event_q"): (ENV,), ("environment_t", "recycle_q"): (ENV,)}
EVENT_ALLOC = {"lf_get_new_event", "lf_recycle_event"}
# functions that run before the state is shared or after the threads that share it are gone, or print it for debugging
CORE_EXEMPT = {
    "environment_init": "builds the environment before any thread exists",
    "environment_init_tags": "runs before the threads of its environment exist",
    "environment_free": "teardown",
    "termination": "exit handler: runs after the worker threads were joined (or the process is dying)",
    "lf_print_snapshot": "debugging aid of the LOG_LEVEL debug build, called with and without the lock",
    "print_event": "debugging aid",
    "_lf_initialize_template": "called by constructors, before execution starts",
    "initialize_global": "runs before any thread exists",
    "lf_new_token": "initialises a token that nobody else has a reference to",
}
# internal functions documented to require that the caller holds the lock, when nothing in the configuration calls them
CORE_ROOTS = {"_lf_insert_reactions_for_trigger", "lf_send_next_event_tag", "_lf_schedule_at_tag",
              "_lf_create_dummy_events", "_lf_wait_on_tag_barrier", "_lf_increment_tag_barrier_locked",
              "_lf_decrement_tag_barrier_locked", "lf_notify_of_event", "_lf_next_locked", "_lf_pop_events",
              "_lf_schedule_init", "lf_get_new_event", "lf_recycle_event", "_lf_advance_tag", "lf_set_stop_tag"}
RTIT = {
    ("scheduling_node_t", "completed"): ((RTI,), "rw"),
    ("scheduling_node_t", "last_granted"): ((RTI,), "rw"),
    ("scheduling_node_t", "last_provisionally_granted"): ((RTI,), "rw"),
    ("scheduling_node_t", "next_event"): ((RTI,), "rw"),
    ("scheduling_node_t", "min_delays"): ((RTI,), "rw"),
    ("scheduling_node_t", "num_min_delays"): ((RTI,), "rw"),
    ("scheduling_node_t", "flags"): ((RTI,), "rw"),
    ("scheduling_node_t", "state"): ((RTI,), "w"),
    ("federate_info_t", "requested_stop"): ((RTI,), "rw"),
    ("federate_info_t", "in_transit_message_tags"): ((RTI,), "rw"),
    ("federate_info_t", "server_port"): ((RTI,), "rw"),
    ("federate_info_t", "socket"): ((RTI,), "w"),
    ("rti_common_t", "max_stop_tag"): ((RTI,), "rw"),
    ("rti_common_t", "num_scheduling_nodes_handling_stop"): ((RTI,), "w"),
    ("rti_remote_t", "max_start_time"): ((RTI,), "w"),
    ("rti_remote_t", "num_feds_proposed_start"): ((RTI,), "rw"),
    ("rti_remote_t", "stop_in_progress"): ((RTI,), "rw"),
}


class Guards(Context):
    def __init__(self, prog, rep, table, containers=(), exempt=()):
        self.table, self.containers, self.exempt = table, dict(containers), exempt
        self.sites = set()
        super().__init__(prog, rep, self.interesting(prog))

    def match(self, path, write):
        for s in keyfields(path):
            t = self.table.get(s)
            if t and (write or "r" in t[1]):
                return s
        return None

    def interesting(self, prog):
        out = set()
        for f in prog.mod.funcs.values():
            for i in f.instrs():
                if i.op in ("load", "store", "atomicrmw", "cmpxchg"):
                    p = prog.access(i)[0]
                    if p and self.match(p, True):
                        out.add(f.name)
                elif i.op == "call":
                    if i.x in EVENT_ALLOC or is_memcpy(i.x):
                        out.add(f.name)
                    for o in i.ops:
                        if o[0] in ("%", "@", "cgep"):
                            p, _ = prog.pinfo(f, o)
                            if p and (p[-1] in self.containers or self.match(p, True)):
                                out.add(f.name)
        return out

    def probe(self, c, e, st, ins, kind, *d):
        out = []
        if kind in ("load", "store"):
            addr, path = d[0], d[1]
            if path and flow.root(addr)[0] != "al":
                s = self.match(path, kind == "store")
                if s is not None and not self.freshobj(addr):
                    out.append((s, "written" if kind == "store" else "read", ins.where()))
        elif kind == "call":
            name, args = d
            if is_memcpy(name):
                for k in (0, 1):
                    if flow.root(args[k])[0] == "al":
                        continue
                    p, t = self.prog.pinfo(ins.fn, ins.ops[k])
                    s = self.match(p, k == 0) if p else None
                    if s is not None:
                        out.append((s, "written" if k == 0 else "read", ins.where()))
            else:
                for o in ins.ops:
                    d2 = ins.fn.defs.get(o[1]) if o[0] == "%" else None
                    if d2 is not None and d2.op == "load":
                        p = self.prog.access(d2)[0]
                        if p and p[-1] in self.containers:
                            out.append((p[-1], "used by %s()" % name, ins.where()))
                if name in EVENT_ALLOC and self.containers:
                    out.append((("environment_t", "recycle_q"), "used by %s()" % name, ins.where()))
        for w in out:
            self.sites.add(w)
        return out

    def freshobj(self, addr):
        """memory the function has just allocated is not shared yet"""
        r = flow.root(addr)
        if r[0] == "v":
            i = self.prog.atom_ins(r[1])
            return i is not None and i.op == "call" and i.x in ("malloc", "calloc")
        return False

    def classes(self, s):
        return self.containers[s] if s in self.containers else self.table[s][0]

    def settled(self, w, h):
        return any(c in self.classes(w[0]) and n > 0 for c, n in h)


def report(rep, an, found, what, skiproots=()):
    for n, w, h, pre, ins, st, ch in found:
        via = {n} | {f for f, _ in ch} | {ins.fn.name}
        if via & set(an.exempt) or n in skiproots:
            continue
        s = w[0]
        rep.violation("guard/%s/%s/%s" % (".".join(s), srcfn(ins), n),
                      "%s is %s at %s without %s, on a path from %s() (locks held there: %s)" % (
                          ".".join(x for x in s if x != "@"), w[1], w[2],
                          " or ".join(c.lstrip("@") for c in an.classes(s)), n,
                          ", ".join(c.lstrip("@*") for c, k in h if k > 0) or "none"),
                      chain_text(an.prog, n, ch) + trace_text(an.prog, st))


def core(config, tier, rep):
    prog = program(config)
    an = Guards(prog, rep, CORE, CONTAINERS, CORE_EXEMPT)
    report(rep, an, an.run(), "core", CORE_ROOTS)
    rep.count("accesses to guarded state", len(an.sites))
    rep.count("function contexts analysed", len(an.memo))
    for s in {w[0] for w in an.sites}:
        rep.count("guarded fields seen")


RTI_EXEMPT = {
    "initialize_RTI": "runs before any thread exists", "initialize_rti_common": "runs before any thread exists",
    "initialize_federate": "runs before the federate's thread exists",
    "initialize_scheduling_node": "runs before the node is shared",
    "is_in_cycle": "unused by the RTI", "is_in_zero_delay_cycle": "unused by the RTI",
    "termination": "exit handler", "free_scheduling_nodes": "teardown after all threads were joined",
}
# `main` as an entry point: its unlocked writes are of a joining federate whose thread does not exist yet, or follow the
# join of all threads


def rti(config, tier, rep):
    prog = program(config)
    an = Guards(prog, rep, RTIT, {}, RTI_EXEMPT)
    report(rep, an, an.run(), "rti", {"main"})
    rep.count("accesses to guarded state", len(an.sites))
    rep.count("function contexts analysed", len(an.memo))


# ---------------------------------------------------------------------------------------------------------------------
# waiting

PASSIVE = ("lf_print", "llvm.dbg", "llvm.lifetime", "llvm.assume", "tracepoint", "call_tracepoint", "printf", "fprintf",
           "lf_time_start", "lf_time_physical", "lf_time_logical", "__errno_location", "lf_tag_compare",
           "lf_is_tag_after_stop_tag", "lf_thread_id", "strerror")


def cond_mutexes(prog):
    """condition variable class -> classes of the mutexes it was initialised with"""
    out = {}
    for f in prog.mod.funcs.values():
        for i in f.instrs():
            if i.op == "call" and i.x == "lf_cond_init":
                out.setdefault(lockclass_op(prog, f, i.ops[0]), set()).add(lockclass_op(prog, f, i.ops[1]))
    return out


def condname(prog, fn, op):
    return lockclass_op(prog, fn, op)


def wait_calls(prog):
    for f in prog.mod.funcs.values():
        if f.name in WRAP:
            continue
        for i in f.instrs():
            if i.op == "call" and i.x in WAITS:
                yield f, i


class Waits(Context):
    """the locks held at each wait"""

    def __init__(self, prog, rep):
        self.conds = cond_mutexes(prog)
        self.sites = set()
        super().__init__(prog, rep, {f.name for f, _ in wait_calls(prog)})
        self.touch -= WRAP

    def roots(self):
        return [r for r in super().roots() if r[0] not in WRAP]

    def probe(self, c, e, st, ins, kind, *d):
        if kind == "call" and d[0] in WAITS and ins.fn.name not in WRAP:
            cond = condname(self.prog, ins.fn, ins.ops[0])
            self.sites.add((cond, ins.where()))
            return [(cond, ins.where())]
        return ()


def retest(prog, f, wait):
    """None, or the construct that runs after the wait before its condition was tested again"""
    loops = prog.loops(f)

    def passive(i):
        if i.op == "call":
            return bool(i.x) and i.x.startswith(PASSIVE) or i.x in QUERY or i.x in ir.NORETURN
        if i.op in ("store", "atomicrmw", "cmpxchg"):
            if i.op == "store":
                p = prog.access(i)[0]
                if p and p[-1] in BOOKKEEPING:
                    return True
            return prog._local(f, i.ops[1] if i.op == "store" else i.ops[0])
        return i.op != "ret"

    def depends(op, seen):
        """does a branch condition depend on something read after the wait?"""
        if op[0] != "%" or op[1] in seen:
            return False
        seen.add(op[1])
        d = f.defs.get(op[1])
        if d is None or d is wait:
            return False
        if d.op in ("load", "atomicrmw", "cmpxchg", "phi") or (d.op == "call"):
            if d.op == "phi":
                return any(depends(v, seen) for v, _ in d.x)
            if d.op == "call" and d.x and d.x.startswith(("lf_print", "llvm.")):
                return False
            return True
        return any(depends(o, seen) for o in d.ops)

    def reaches_wait(b, n=0):
        """is the wait reachable from the start of block b without an effect in between?"""
        seen, todo = set(), [b]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            ok = True
            for i in f.blocks[x].ins:
                if i is wait:
                    return True
                if i.op == "call" and i.x in WAITS:
                    return True
                if i.op in ("call", "ret", "unreachable") and not passive(i):
                    ok = False
                    break
            if ok:
                todo += f.blocks[x].succ
        return False

    seen, todo = set(), [(wait.bb.name, wait.bb.ins.index(wait) + 1)]
    while todo:
        b, k = todo.pop()
        stop = False
        for i in f.blocks[b].ins[k:]:
            if i is wait:
                return i          # went around without any test
            if i.op in ("br", "switch"):
                if len(f.blocks[b].succ) > 1 and i.ops and depends(i.ops[0], set()) and \
                        any(reaches_wait(s) for s in f.blocks[b].succ):
                    stop = True
                continue
            if not passive(i):
                return i
        if stop:
            continue
        for s in f.blocks[b].succ:
            if s not in seen:
                seen.add(s)
                todo.append((s, 0))
    return None


# a worker that wakes up takes back its announcement of being idle before it looks for work
BOOKKEEPING = {("lf_scheduler_t", "number_of_idle_workers")}
QUERY = {"lf_tag", "get_next_event_tag", "lf_time", "pqueue_tag_peek", "pqueue_peek", "lf_is_blocked_by_executing_reaction"}
# roots documented to require the lock
WAIT_ROOTS = CORE_ROOTS | {"wait_until"}


def waits(config, tier, rep):
    prog = program(config)
    an = Waits(prog, rep)
    for n, (cond, where), h, pre, ins, st, ch in an.run():
        if n in WAIT_ROOTS and not any(k > 0 for c, k in h):
            continue
        ms = an.conds.get(cond)
        if ms is None:
            ms = set().union(*[v for k, v in an.conds.items() if k == cond] or [set()])
        rep.count("wait contexts")
        own = [c for c, k in h if k > 0 and c in (ms or ())]
        other = [c for c, k in h if k > 0 and c not in (ms or ())]
        txt = "the wait on %s at %s, on a path from %s()," % (cond.lstrip("*@"), where, n)
        p = chain_text(prog, n, ch) + trace_text(prog, st)
        if cond in ("?", "*?") or not ms:
            if not any(k == 1 for c, k in h):
                rep.violation("wait/none/%s/%s" % (srcfn(ins), n), txt + " does not hold any lock", p)
            continue
        if not own:
            rep.violation("wait/unheld/%s/%s" % (cond, srcfn(ins)), txt + " does not hold the condition's mutex %s"
                          % "/".join(x.lstrip("@*") for x in ms), p)
        elif [k for c, k in h if c == own[0]] != [1]:
            rep.violation("wait/nested/%s/%s" % (cond, srcfn(ins)), txt + " holds the recursive mutex %s %d times, so "
                          "that waiting does not release it" % (own[0], [k for c, k in h if c == own[0]][0]), p)
        if other:
            rep.violation("wait/other/%s/%s" % (cond, srcfn(ins)), txt + " also holds %s, which nobody can take while "
                          "it sleeps" % ", ".join(x.lstrip("@*") for x in other), p)
    for f, w in wait_calls(prog):
        rep.count("wait call sites")
        timed = w.x != "lf_cond_wait" and w.x != "pthread_cond_wait"
        cond = condname(prog, f, w.ops[0])
        if timed:
            continue
        bad = retest(prog, f, w)
        if bad is not None:
            rep.violation("wait/retest/%s/%s" % (cond, srcfn(w)), "after the wait on %s at %s returns, %s at %s is reached "
                          "before the awaited condition was tested again" % (cond.lstrip("*@"), w.where(),
                          "%s()" % bad.x if bad.op == "call" and bad.x else bad.op, bad.where()))
    rep.samples += ["%s at %s" % s for s in sorted(an.sites)]
