"""User code: which of a reaction's functions is called, under which lock, and what follows."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .net import lin
from .tags import CUR, fieldoff
from .tags2 import Base
from .tagutil import tagat, order

R_ = "reaction_t"
KIND = {(R_, "function"): "function", (R_, "deadline_violation_handler"): "deadline handler", (R_, "STP_handler"): "STP handler"}
WATCH = ("watchdog_t", "watchdog_function")
INLINE = frozenset(("_lf_invoke_reaction", "_lf_worker_invoke_reaction", "_lf_worker_handle_violations",
                    "_lf_worker_handle_deadline_violation_for_reaction", "_lf_worker_handle_STP_violation_for_reaction"))
FIXED = frozenset([(R_, "deadline"), (R_, "is_an_input_reaction"), (R_, "self"), ("watchdog_t", "base"), WATCH]) | frozenset(KIND)
OBTAIN = {"lf_sched_get_ready_reaction", "pqueue_pop"}
OUTPUTS = "schedule_output_reactions"
MUTEX = ("self_base_t", "reactor_mutex")
LATE = (R_, "is_STP_violated")
INACTIVE = ("c", 0)


def sums(v):
    """additions of times, as plain additions"""
    if isinstance(v, tuple) and v and v[0] == "call" and v[1] == "lf_time_add":
        return ("bin", "add", sums(v[2]), sums(v[3]))
    if isinstance(v, tuple) and v and v[0] in ("bin", "+"):
        return tuple(sums(x) if isinstance(x, tuple) else x for x in v)
    return v


class Turn(Base):
    """what happens to a reaction from the moment it is taken from the queue, or picked to be executed immediately"""
    rule = "turn"
    K = 40
    STABLE = locks.STABLE | FIXED

    def __init__(self, prog, fn, rep, what, stp):
        super().__init__(prog, fn, rep)
        self.what, self.stp = what, stp

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def bad(self, rule, key, msg, st, ins):
        if rule == self.what:
            self.report(key, msg, st, ins)

    def base(self, addr, field):
        return flow.plus(addr, -fieldoff(self.prog, None, field[0], field[1]))

    def forget(self, st, R):
        """a reaction comes to its turn"""
        self.drop(st, lambda x: x[0] in OF and x[1] == R or x[0] == "fp" and x[3] == R)

    # -- facts --------------------------------------------------------------------------------------------------------
    def load(self, e, st, ins, addr, path, val):
        if not path:
            return
        f = path[-1]
        if f == DOWN and self.stp and (self.fn.name == OUTPUTS or self.fn.name in MARKS):
            self.add(st, ("down", val))
        if f in KIND:
            R = self.base(addr, f)
            self.add(st, ("fp", val, KIND[f], R))
            self.turn(e, st, R)
        elif f == WATCH:
            self.add(st, ("wfp", val, self.base(addr, f)))
        elif f == (R_, "deadline"):
            self.add(st, ("dl", self.base(addr, f), val))
        elif f == (R_, "self"):
            self.add(st, ("self", self.base(addr, f), val))
        elif f == ("watchdog_t", "base"):
            self.add(st, ("self", self.base(addr, f), val))
        elif f == MUTEX:
            self.add(st, ("rm", self.base(addr, f), val))
        elif f == LATE and self.stp:
            R = self.base(addr, f)
            if ("did", R) not in st.ps:
                if ("stp", R, val) not in st.ps:
                    self.drop(st, lambda x: x[0] in ("stp", "late", "ontime") and x[1] == R)
                self.add(st, ("stp", R, val))
        elif f == ("self_base_t", "executing_reaction"):
            # the reaction from which we were called: its outputs, and what it depends on, are no business of ours
            self.add(st, ("self", val, self.base(addr, f)), ("within", val))
        elif f == (R_, "status") and self.stp:
            self.add(st, ("idle?", self.base(addr, f), val))
        elif f == (R_, "is_an_input_reaction") and self.stp:
            self.add(st, ("inp", self.base(addr, f), val))
        elif f == ("tag_t", "time") and len(path) >= 2 and path[-2] == CUR:
            self.add(st, ("cur", val))

    def turn(self, e, st, R):
        if ("did", R) not in st.ps and ("within", R) not in st.ps:
            self.add(st, ("todo", R))

    def store(self, e, st, ins, addr, path, val):
        if not path:
            return
        f = path[-1]
        if f == (R_, "status") and val == INACTIVE:
            self.done(e, st, ins, self.base(addr, f))
        elif f == LATE and self.stp:
            R = self.base(addr, f)
            v = self.truth(e, st, val)
            if any(("stp", ("arg", self.fn.args[i]), d) in st.ps for d in disjuncts(val) for i in (1,) if len(self.fn.args) > i):
                self.drop(st, lambda x: x == ("down", R))
            if v:
                self.add(st, ("marked", R))
                self.drop(st, lambda x: x in (("clear", R), ("down", R)))
            elif ("did", R) in st.ps or ("missed", R) in st.ps:
                if v is False:
                    self.add(st, ("clear", R))
            elif ("idle", R) not in st.ps and not self.keeps(st, addr, val):
                self.bad("stp", "lost", "%s() may clear at %s the mark of a reaction that is late, although neither it nor a handler was called" % (
                    self.fn.name, ins.where()), st, ins)

    def reborn(self, e, st, aid):
        if any(x[0] == "down" and aid in flow.atoms(x) for x in st.ps):
            self.passed(e, st)
        if any(aid in flow.atoms(x) for x in st.ps):
            self.drop(st, lambda x: aid in flow.atoms(x))

    def passed(self, e, st):
        """the reactions that depend on an output, or are triggered by an event, were dealt with"""
        ds = self.get(st, "down")
        if not ds:
            return
        k = MARKS.get(self.fn.name)
        if ("intime", k) not in st.ps if k else ("ontime", ("arg", self.fn.args[1])) not in st.ps:
            for x in ds:
                if self.truth(e, st, x[1]) is not False and not self.ismarked(e, st, x[1]):
                    self.bad("stp", "overlooked" if k else "inherit", ("%s() may not mark a reaction as late although it is triggered by an event for which the intended tag has passed" if k else
                             "%s() passes on outputs of a reaction that may be late without marking a reaction that depends on them as late") % self.fn.name, st,
                             next(i for i in self.fn.instrs() if i.op == "load" and (self.prog.access(i)[0] or (None,))[-1] == DOWN))
        self.drop(st, lambda x: x[0] == "down")

    def keeps(self, st, addr, val):
        """the new value is the old one, or true if that is"""
        old = st.mem.get(addr)
        return old is not None and any(d in disjuncts(old[0]) for d in disjuncts(val))

    def edge(self, e, st, bb, succ):
        phys, cur = [x[1] for x in self.get(st, "phys")], [x[1] for x in self.get(st, "cur")]
        for _, R, v in self.get(st, "dl"):
            lo, hi, ne = e.iv(st, v)
            if hi < 0:
                self.add(st, ("none", R))
            elif lo == hi == 0:
                self.add(st, ("missed", R))
            elif lo >= 0 and phys and cur:
                m = self.compare(e, st, v, phys, cur)
                if m == GT:
                    self.add(st, ("missed", R))
                elif not m & GT and (lo > 0 or 0 in ne):
                    self.add(st, ("met", R))
        for x in self.get(st, "stp"):
            n = self.truth(e, st, x[2])
            if n is not None:
                self.add(st, ("late" if n else "ontime", x[1]))
        for x in self.get(st, "down"):
            if self.truth(e, st, x[1]) is False:
                self.drop(st, lambda y: y == x)
        for x in self.get(st, "idle?"):
            if self.truth(e, st, x[2]) is False:
                self.add(st, ("idle", x[1]))
        self.tags(e, st)
        for x in self.get(st, "inp"):
            if self.truth(e, st, x[2]):
                self.add(st, ("isinput", x[1]))
        for x in self.get(st, "fp"):
            n = self.truth(e, st, x[1])
            if n is not None:
                self.add(st, ("has" if n else "hasnot", x[3], x[2]))
        for x in self.get(st, "rm"):
            if self.truth(e, st, x[2]) is False:
                self.add(st, ("unlocked", x[1]))
        for x in self.get(st, "todo"):
            if self.truth(e, st, x[1]) is False:
                self.drop(st, lambda y: y == x)
        return True

    def tags(self, e, st):
        """what is known about the intended tags of events"""
        if not self.stp:
            return
        C = self.envtag(e, st, CUR)
        for a, (v, p, s) in st.mem.items():
            if p and len(p) >= 2 and p[-2] in INTENDED and p[-1] == ("tag_t", "time"):
                T = tagat(e, st, a)
                if T[0] is not None and e.iv(st, T[0])[:2] == (NEVER, NEVER):
                    self.add(st, ("intime", p[-2][0]))
                elif T[0] is not None and T[1] is not None:
                    for c in C:
                        m = order(e, st, T, c)
                        if m == LT:
                            self.add(st, ("behind", p[-2][0]))
                        elif not m & LT:
                            self.add(st, ("intime", p[-2][0]))

    def trigger(self, e, st, ins, R):
        if not self.stp:
            return
        if self.fn.name in MARKS:
            k = MARKS[self.fn.name]
            if ("behind", k) in st.ps:
                if not self.ismarked(e, st, R):
                    self.bad("stp", "mark", "%s() triggers a reaction at %s without marking it as late, although the tag intended for the event has passed" % (
                        self.fn.name, ins.where()), st, ins)
            elif ("intime", k) not in st.ps:
                self.bad("stp", "mark", "%s() triggers a reaction at %s without having found out whether the tag intended for the event has passed" % (
                    self.fn.name, ins.where()), st, ins)

    def ismarked(self, e, st, R):
        m = st.mem.get(flow.plus(R, fieldoff(self.prog, None, *LATE)))
        return ("marked", R) in st.ps or m is not None and self.truth(e, st, m[0])

    def truth(self, e, st, v):
        d = st.facts.get(("B", v))
        if d is not None:
            return d
        ds = disjuncts(v)
        if len(ds) > 1:
            ts = [self.truth(e, st, x) for x in ds]
            return True if True in ts else None if None in ts else False
        while v[0] in ("zx", "tr", "b2i") and e.iv(st, v)[:2] == (-flow.INF, flow.INF):
            v = v[1]
        lo, hi, ne = e.iv(st, v)
        return False if lo == hi == 0 else True if 0 in ne or lo > 0 or hi < 0 else None

    def compare(self, e, st, dl, phys, cur):
        """how physical time relates to the current tag plus the deadline"""
        m = 7
        want = [{p: 1, c: -1, dl: -1} for p in phys for c in cur]
        for k, v in st.facts.items():
            if k[0] == "P":
                a, b = k[1], k[2]
                n = v
            elif k[0] == "I":
                a, b = k[1], ("c", 0)
                n = (LT if v[0] < 0 else 0) | (EQ if v[0] <= 0 <= v[1] and 0 not in v[2] else 0) | (GT if v[1] > 0 else 0)
            else:
                continue
            if a[0] not in ("bin", "call", "v", "+") or depthy(a) + depthy(b) < 2:
                continue
            d = lin(sums(b), -1, lin0(sums(a)))
            if d in want:
                m &= n
            elif {x: -y for x, y in d.items()} in want:
                m &= flow.SWAP[n]
        return m

    # -- calls --------------------------------------------------------------------------------------------------------
    def call(self, e, st, ins, name, args):
        if name in locks.LOCK:
            self.add(st, ("held", args[0]))
            e.havoc(st)
            return [(st, ("c", 0))]
        if name in locks.UNLOCK:
            self.drop(st, lambda x: x == ("held", args[0]))
            return [(st, ("c", 0))]
        if name == "lf_time_physical":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x == ("phys", v))
            self.add(st, ("phys", v))
            return [(st, v)]
        if name == "lf_time_logical":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("cur", v))
            return [(st, v)]
        if name in OBTAIN:
            self.settled(e, st, ins, "takes another reaction")
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] in OF or x[0] == "fp")
            self.add(st, ("todo", v))
            return [(st, v)]
        if name == OUTPUTS:
            self.passed(e, st)
            R = args[1]
            if ("outputs", R) in st.ps:
                self.bad("turn", "outputs twice", "%s() triggers at %s what depends on the outputs of a reaction for the second time" % (
                    self.fn.name, ins.where()), st, ins)
            if ("late", R) in st.ps and ("called", R, "STP handler") not in st.ps and ("clear", R) in st.ps:
                self.bad("stp", "dropped", "%s() passes on at %s outputs of a reaction that is late, but not that it is late, although the STP handler was not called" % (
                    self.fn.name, ins.where()), st, ins)
            if ("called", R, "STP handler") in st.ps and ("clear", R) not in st.ps and self.stp:
                self.bad("stp", "handled", "%s() passes on at %s that an input came too late, although the STP handler was called" % (
                    self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x == ("owe", R))
            self.add(st, ("outputs", R))
            return None
        if name in ("_lf_trigger_reaction", "lf_scheduler_trigger_reaction"):
            self.trigger(e, st, ins, args[1])
            return None
        if name in ("pqueue_tag_pop", "pqueue_tag_peek"):
            self.passed(e, st)
            self.drop(st, lambda x: x[0] in ("behind", "intime") and x[1] == "event_t")
            return None
        if name == "lf_sched_done_with_reaction":
            self.done(e, st, ins, args[1])
            return None
        if ins.x is None:
            c = e.ev(st, ins.ops[-1])
            for x in self.get(st, "fp"):
                if x[1] == c:
                    self.user(e, st, ins, x[2], x[3], args)
                    return None
            for x in self.get(st, "wfp"):
                if x[1] == c:
                    self.locked(e, st, ins, "the handler of a watchdog", x[2], args)
                    return None
            p = self.prog.pinfo(self.fn, ins.ops[-1])[0]
            if p and (p[-1][1:] in KIND or p[-1] in KIND):
                raise AnalysisBroken("call of a reaction's function that was loaded elsewhere, in " + self.fn.name)
        return None

    def locked(self, e, st, ins, what, R, args):
        self.sites += 1
        within = ("within", R) in st.ps
        S = [x[2] for x in self.get(st, "self") if x[1] == R]
        if not args or args[0] not in S:
            self.bad("turn", "self", "%s() calls %s at %s with the state of another reactor" % (self.fn.name, what, ins.where()), st, ins)
        if self.what == "lock":
            ms = [x for x in self.get(st, "rm") if x[1] in S]
            if not within and not any(("unlocked", s) in st.ps for s in S) and not any(("held", m[2]) in st.ps for m in ms):
                self.bad("lock", "mutex", "%s() calls %s at %s without holding the mutex of its reactor" % (self.fn.name, what, ins.where()), st, ins)

    def user(self, e, st, ins, kind, R, args):
        has = lambda *x: x in st.ps
        self.locked(e, st, ins, "the %s of a reaction" % kind, R, args)
        w = "%s() calls the %s of a reaction at %s " % (self.fn.name, kind, ins.where())
        if kind == "function":
            if not has("none", R) and not has("met", R):
                self.bad("turn", "deadline", w + "without having found that it has no deadline or meets it", st, ins)
            if has("did", R):
                self.bad("turn", "twice", w + "although it, or a handler in its place, has been called already", st, ins)
            if has("late", R) and not has("hasnot", R, "STP handler") and not has("isinput", R):
                self.bad("stp", "late", w + "although an input came too late and it may have an STP handler", st, ins)
            if self.stp and not any(has(x, R) for x in ("late", "ontime", "isinput")):
                self.bad("stp", "unknown", w + "without having found out whether an input came too late", st, ins)
        elif kind == "deadline handler":
            if not has("missed", R):
                self.bad("turn", "handler", w + "without having found that the deadline was missed", st, ins)
            if has("called", R, kind) or has("called", R, "function"):
                self.bad("turn", "again", w + "although it, or the function, has been called already", st, ins)
        else:
            if self.stp and not has("late", R):
                self.bad("stp", "handler", w + "without having found that an input came too late", st, ins)
            if has("called", R, kind) or has("called", R, "function"):
                self.bad("stp", "again", w + "although it, or the function, has been called already", st, ins)
        if has("within", R):
            return
        self.add(st, ("did", R), ("owe", R), ("called", R, kind))
        self.drop(st, lambda x: x == ("todo", R))

    def settled(self, e, st, ins, what):
        self.edge(e, st, None, None)
        for x in self.get(st, "todo"):
            R = x[1]
            if ("missed", R) in st.ps and ("hasnot", R, "deadline handler") in st.ps:
                self.cleared(st, ins, R, what)
                continue
            self.bad("turn", "skipped", "%s() %s at %s without having called the function of the reaction whose turn it was, or a handler in its place" % (
                self.fn.name, what, ins.where()), st, ins)
        for x in self.get(st, "owe"):
            self.bad("turn", "outputs", "%s() %s at %s without having triggered what depends on the outputs of the reaction that was executed" % (
                self.fn.name, what, ins.where()), st, ins)
        for x in self.get(st, "did"):
            self.cleared(st, ins, x[1], what)
        self.drop(st, lambda x: x[0] in ("todo", "owe", "did"))

    def cleared(self, st, ins, R, what):
        if self.stp and ("clear", R) not in st.ps and ("ontime", R) not in st.ps:
            self.bad("stp", "flag", "%s() %s at %s and leaves the reaction that was executed marked as late" % (self.fn.name, what, ins.where()), st, ins)

    def done(self, e, st, ins, R):
        mine = lambda x: x[0] in ("todo", "owe", "did") and x[1] == R
        keep = frozenset(x for x in st.ps if x[0] in ("todo", "owe", "did") and x[1] != R)
        st.ps -= keep
        self.settled(e, st, ins, "is done with a reaction")
        st.ps |= keep

    def ret(self, e, st, ins, val):
        self.passed(e, st)
        self.settled(e, st, ins, "returns")


OF = ("none", "met", "missed", "late", "ontime", "isinput", "has", "hasnot", "did", "called", "owe", "todo", "dl", "stp", "inp", "clear", "self", "outputs", "marked", "within", "idle", "idle?", "down")
DOWN = ("*", "trigger_t", "reactions")
MARKS = {"_lf_pop_events": "event_t", "_lf_insert_reactions_for_trigger": "trigger_t"}
INTENDED = {("event_t", "intended_tag"), ("trigger_t", "intended_tag")}
NEVER = -(1 << 63)


def depthy(v):
    return 1 if v[0] in ("c", "v", "arg", "@") else 2


def disjuncts(v):
    while True:
        if v[0] in ("zx", "tr", "b2i"):
            v = v[1]
        elif v[0] == "cmp" and v[1] == "ne" and v[3] == ("c", 0):
            v = v[2]
        else:
            break
    if v[0] == "bin" and v[1] == "or":
        return disjuncts(v[2]) + disjuncts(v[3])
    return [v]


def lin0(v):
    return dict(lin(v))


def calls(what):
    def run(config, tier, rep):
        prog = program(config, INLINE)
        stp = config == "fed-dec"
        n = 0
        called = set()
        for s in prog.callgraph().values():
            called |= s
        at = address_taken(prog.mod)
        for f in prog.mod.funcs.values():
            if f.name in INLINE or f.name not in KNOWN and f.name in called and f.name not in at:
                continue
            fields = {(prog.access(i)[0] or (None,))[-1] for i in f.instrs() if i.op == "load"}
            if not fields & (set(KIND) | {WATCH}) and not (stp and what == "stp" and (f.name in MARKS or any(
                    i.op == "store" and (prog.access(i)[0] or (None,))[-1] == LATE for i in f.instrs()))):
                continue
            c = Turn(prog, f, rep, what, stp).run()
            n += c.sites
            if c.sites:
                rep.count("functions that call user code")
        rep.count("calls of user code on paths", n)
    return run


turn = calls("turn")
lock = calls("lock")
stp = calls("stp")
