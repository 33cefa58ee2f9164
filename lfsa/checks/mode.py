"""Modal reactors: reactions of inactive modes are not executed, and how modes become active and inactive."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from .net import lin
from .sched import KIND, OBTAIN, sums
from .tags import CUR, fieldoff
from .tags2 import Base
from . import locks

M_, S_ = "reactor_mode_t", "reactor_mode_state_t"
MODE, TMODE, FLAGS, LEFT = ("reaction_t", "mode"), ("trigger_t", "mode"), (M_, "flags"), (M_, "deactivation_time")
CURRENT, NEXT, PARENT, CHANGE = ((S_, x) for x in ("current_mode", "next_mode", "parent_mode", "mode_change"))
PERIOD, OFFSET, TIMER, HEAPED = ("trigger_t", "period"), ("trigger_t", "offset"), ("trigger_t", "is_timer"), ("pqueue_t", "d")
REQUEST = ("mode_environment_t", "triggered_reactions_request")
QUEUE = ("environment_t", "reaction_q")
ACTIVE, NEEDS, HAD, RESET = 1, 2, 4, 8
ZERO = ("c", 0)
INLINE = frozenset(("_lf_mode_is_active",))
# these trigger reactions that are in no mode
EXEMPT = {"lf_enqueue_port_absent_reactions": "the reactions it triggers belong to the federate itself, which is in no mode",
          "lf_scheduler_trigger_reaction": "the entry of the scheduler", "_lf_initialize_mode_states": "no mode had its startup yet"}


TRACK = {"inactive": {MODE, FLAGS}, "flags": {FLAGS, CURRENT, NEXT, PARENT, CHANGE}, "events": {TMODE, FLAGS, NEXT, CHANGE, LEFT, CURRENT, PERIOD, OFFSET, TIMER, HEAPED}}


def strip(v):
    while v[0] in ("zx", "sx", "tr", "b2i"):
        v = v[1]
    return v


class Mode(Base):
    rule = "mode"
    K = 8
    PSLIVE = PSWEAK = True
    PSSTRONG = frozenset(("entered", "recompute", "had", "queued", "timer", "linger"))
    STABLE = locks.STABLE | {MODE, TMODE, PARENT, (S_, "initial_mode")}

    def __init__(self, prog, fn, rep, what, sinks):
        super().__init__(prog, fn, rep)
        self.what, self.sinks, self.asks, self.resets = what, sinks, set(), set()

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def bad(self, rule, key, msg, st, ins):
        if rule == self.what:
            self.report(key, msg, st, ins)

    def base(self, addr, field):
        return flow.plus(addr, -fieldoff(self.prog, None, field[0], field[1]))

    def mem(self, st, obj, field):
        x = st.mem.get(flow.plus(obj, fieldoff(self.prog, None, field[0], field[1])))
        return x and x[0]

    # -- bits of flags ------------------------------------------------------------------------------------------------
    def bits(self, e, st, v):
        """(bits known to be set, bits known to be clear)"""
        v = strip(v)
        if v[0] == "c":
            return v[1] & 255, ~v[1] & 255
        s = c = 0
        if v[0] == "bin" and v[1] in ("or", "and"):
            a, b = self.bits(e, st, v[2]), self.bits(e, st, v[3])
            s, c = (a[0] | b[0], a[1] & b[1]) if v[1] == "or" else (a[0] & b[0], a[1] | b[1])
        for k, f in st.facts.items():
            if k[0] == "I" and k[1][0] not in ("c", "v"):
                w = strip(k[1])
                if w[0] == "bin" and w[1] == "and" and w[3][0] == "c" and strip(w[2]) == v:
                    m = w[3][1] & 255
                    if f[0] == f[1] == 0:
                        c |= m
                    elif (0 in f[2] or f[0] > 0 or f[1] < 0) and m & (m - 1) == 0:
                        s |= m
        return s, c

    def passes(self, v, old):
        """the bits that a request may contain, besides those of the old one"""
        v = strip(v)
        if old is not None:
            (x, m, s), (y, n, t) = flow.masked(v), flow.masked(strip(old))
            if strip(x) == strip(y):
                return (s & ~t | m & ~(n | t)) & 255
        if v[0] == "c":
            return v[1] & 255
        if v[0] == "bin" and v[1] in ("or", "and"):
            a, b = self.passes(v[2], old), self.passes(v[3], old)
            return a | b if v[1] == "or" else a & b
        return 255

    def active(self, e, st, R):
        if ("active", R) in st.ps:
            return True
        m = self.mem(st, R, MODE)
        return m is not None and e.iv(st, m)[:2] == (0, 0)

    def load(self, e, st, ins, addr, path, val):
        if not path or path[-1][0] == "*":
            if self.what != "inactive":
                st.mem.pop(addr, None)      # an element of an array: what it points to need not be remembered
            if self.what == "events" and self.suspends and any(x[1] == HEAPED and flow.atoms(x[3]) <= flow.atoms(addr) for x in self.get(st, "ld")):
                self.add(st, ("queued", val))
            elif self.what == "events":
                self.add(st, ("elem", val))
            return
        f = path[-1]
        if f in TRACK[self.what]:
            self.drop(st, lambda x: x[0] == "ld" and x[1] == f and x[2] == self.base(addr, f))
            self.add(st, ("ld", f, self.base(addr, f), val))
            if f in (TMODE, PERIOD, OFFSET, TIMER) and ("elem", self.base(addr, f)) in st.ps and self.restores:
                self.drop(st, lambda x: x == ("elem", self.base(addr, f)))
                self.add(st, ("timer", self.base(addr, f)))
        elif f == ("self_base_t", "executing_reaction"):
            self.add(st, ("active", val))
        elif f in KIND:
            self.add(st, ("fp", val, self.base(addr, f)))
        elif f == QUEUE:
            self.add(st, ("queue", val))
        elif path[-2:-1] == (CUR,) and f[0] == "tag_t" and self.what != "inactive":
            self.add(st, ("cur", f[1], val))
        elif self.what != "events":
            return
        elif f in (("event_t", "trigger"), ("event_t", "token")):
            self.add(st, ("ev", f[1], self.base(addr, f), val))
        elif len(path) >= 3 and path[-3:-1] == (("event_t", "base"), ("pqueue_tag_element_t", "tag")) and f[1] == "time":
            self.add(st, ("ev", "time", flow.plus(addr, -fieldoff(self.prog, None, "event_t", "base")), val))

    def edge(self, e, st, bb, succ):
        fl = {x[2]: x[3] for x in self.get(st, "ld") if x[1] == FLAGS}
        for _, f, R, m in [x for x in self.get(st, "ld") if x[1] in (MODE, TMODE, PARENT)]:
            if e.iv(st, m)[:2] == (0, 0):
                self.add(st, ("active", R))
            elif m in fl:
                s, c = self.bits(e, st, fl[m])
                if s & ACTIVE:
                    self.add(st, ("active", R))
                elif c & ACTIVE:
                    if f == PARENT and self.what == "flags" and ("inactive", R) not in st.ps and ("off", self.mem(st, R, CURRENT)) not in st.ps:
                        self.add(st, ("linger", R))
                    self.add(st, ("inactive", R))
        for M, v in fl.items():
            s, c = self.bits(e, st, v)
            if s & HAD and v == self.mem(st, M, FLAGS):
                self.add(st, ("st", M))
        for _, f, S, v in [x for x in self.get(st, "ld") if x[1] == CHANGE]:
            lo, hi, ne = e.iv(st, v)
            if lo == hi == 1:
                self.add(st, ("isreset", S))
            elif 1 in ne or lo > 1 or hi < 1:
                self.add(st, ("isnot", S))
        for _, f, S, v in [x for x in self.get(st, "ld") if x[1] == NEXT]:
            c = self.mem(st, S, CURRENT)
            m = EQ | LT if c is None else e.pmask(st, c, v, True)
            if not m & EQ:
                self.add(st, ("moves", S))
            elif m == EQ:
                self.add(st, ("stays", S))
        if self.what == "events":
            offs, nexts = self.offsets(e, st), [x[3] for x in self.get(st, "ld") if x[1] == NEXT]
            for x in self.get(st, "ld"):
                if x[1] == TMODE and any(e.pmask(st, x[3], v, True) == EQ for v in nexts):
                    self.add(st, ("mine", x[2]), *[("mine", y[2]) for y in self.get(st, "ev") if y[1] == "trigger" and y[3] == x[2]])
            for _, T in self.get(st, "timer"):
                m = [y[3] for y in self.get(st, "ld") if y[1:3] == (TMODE, T)]
                p = [e.iv(st, y[3]) for y in self.get(st, "ld") if y[1:3] == (PERIOD, T)]
                if any(0 in y[2] or y[0] > 0 for y in p) or any(not e.pmask(st, y, v, True) & EQ for y in m for v in nexts) or (
                        "mine", T) not in st.ps and any(e.iv(st, y)[:2] == (0, 0) for y in m):
                    self.drop(st, lambda y: y == ("timer", T))
            for x in self.get(st, "queued"):
                t = [y[3] for y in self.get(st, "ev") if y[1] == "trigger" and y[2] == x[1]]
                if e.iv(st, x[1])[:2] == (0, 0) or ("suspended", x[1]) in st.ps or any(("active", y) in st.ps or e.iv(st, y)[:2] == (0, 0) for y in t):
                    self.drop(st, lambda y: y == x)
            for x in self.get(st, "ev"):
                if x[1] == "time":
                    for o in offs:
                        m = e.pmask(st, ("bin", "sub", x[3], o), ZERO) & e.pmask(st, x[3], o)
                        if m == EQ or not m & EQ:
                            self.add(st, ("remains", x[3], o, m != EQ))
        for x in self.get(st, "entered"):
            if self.complete(st, x[1], x[2]):
                self.drop(st, lambda y: y == x)
        for x in self.get(st, "had"):
            if x[2] != ZERO and self.bits(e, st, x[2])[1] & NEEDS:
                self.drop(st, lambda y: y == x)
        self.drop(st, lambda y: y[0] == "recompute" and ("inactive", y[1]) in st.ps)
        for x in self.get(st, "ev"):
            if x[1] == "trigger" and ("inactive", x[3]) in st.ps:
                self.add(st, ("sleep", x[2]))
        return True

    # -- activity -----------------------------------------------------------------------------------------------------
    def store(self, e, st, ins, addr, path, val):
        if not path:
            return
        f = path[-1]
        if f == MODE:
            m = self.mem(st, self.base(addr, f), MODE)
            v = m and self.mem(st, m, FLAGS)
            if not v or not self.bits(e, st, v)[0] & HAD:
                self.bad("inactive", "released", "%s() takes a reaction out of its mode at %s although the mode may never have been entered" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x == ("active", self.base(addr, f)))
        elif self.what != "flags":
            return
        elif f == FLAGS:
            self.flags(e, st, ins, self.base(addr, f), val)
        elif f == CURRENT:
            self.current(e, st, ins, self.base(addr, f), val)
        elif f == NEXT and val == ZERO:
            self.add(st, ("nn", self.base(addr, f)))
        elif f == REQUEST:
            old = st.mem.get(addr)
            some = self.passes(val, old and old[0])
            for m in [self.mem(st, x[1], FLAGS) for x in self.get(st, "on")] or [None]:
                if (some | (self.bits(e, st, m)[1] if m is not None else 0)) & (NEEDS | RESET) != NEEDS | RESET:
                    break
            else:
                self.drop(st, lambda x: x[0] == "request")

    def states(self, st, M):
        return [flow.plus(a, -fieldoff(self.prog, None, *CURRENT)) for a, (v, p, s) in st.mem.items() if p and p[-1] == CURRENT and v == M]

    def flags(self, e, st, ins, M, val):
        self.sites += 1
        old = self.mem(st, M, FLAGS)
        os, oc = self.bits(e, st, old) if old is not None else (0, 0)
        s, c = self.bits(e, st, val)
        if s & ~os & ACTIVE:
            for S in self.states(st, M):
                P = self.mem(st, S, PARENT)
                if ("active", S) in st.ps or P is not None and e.iv(st, P)[:2] == (0, 0):
                    break
            else:
                self.bad("flags", "active", "%s() makes a mode active at %s that may not be the current one of its reactor, or is within a mode that may not be active" % (
                    self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x[0] == "recompute" and x[1] in self.states(st, M))
            self.add(st, ("on", M), ("request",))
        if c & ~oc & ACTIVE:
            self.drop(st, lambda x: x[0] in ("active", "inactive") or x == ("on", M))
            self.add(st, ("off", M))
            self.drop(st, lambda x: x[0] == "linger" and x[1] in self.states(st, M))
            for S in self.states(st, M):
                self.add(st, ("recompute", S))
        elif not c & ACTIVE and self.passes(val, old) & ACTIVE:
            self.drop(st, lambda x: x == ("off", M))
        if s & ~os & NEEDS:
            if not oc & HAD and self.fn.name not in EXEMPT:
                self.bad("flags", "startup again", "%s() requests the startup of a mode at %s that may have had it" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("st", M))
        if c & ~oc & NEEDS and not s & HAD and ("st", M) not in st.ps:
            self.add(st, ("had", M, old or ZERO))
        if s & HAD:
            self.drop(st, lambda x: x[:2] == ("had", M))
            self.add(st, ("st", M))
        if c & ~oc & HAD:
            self.bad("flags", "forgets", "%s() forgets at %s that a mode had its startup" % (self.fn.name, ins.where()), st, ins)
        if s & RESET:
            self.drop(st, lambda x: x == ("rc", M))
            self.add(st, ("rs", M))
        elif c & RESET:
            self.drop(st, lambda x: x == ("rs", M))
            self.add(st, ("rc", M))

    def current(self, e, st, ins, S, N):
        self.sites += 1
        O = self.mem(st, S, CURRENT)
        if not any(x[1] == NEXT and x[2] == S and x[3] == N for x in self.get(st, "ld")):
            self.bad("flags", "target", "%s() enters a mode at %s that is not the one that was requested" % (self.fn.name, ins.where()), st, ins)
        if O is None or not (("off", O) in st.ps):
            self.bad("flags", "left", "%s() leaves a mode at %s that may still be active" % (self.fn.name, ins.where()), st, ins)
        t = O is not None and self.mem(st, O, LEFT)
        if not t or ("cur", "time", t) not in st.ps:
            self.bad("flags", "time", "%s() leaves a mode at %s without recording the time" % (self.fn.name, ins.where()), st, ins)
        self.drop(st, lambda x: x[0] in ("nn",) and x[1] == S or x[0] in ("st", "rs", "rc", "on") and x[1] == N)
        self.add(st, ("off", N))        # only the mode that was current can have been active
        if self.mem(st, S, NEXT) == ZERO:
            self.add(st, ("nn", S))
        self.add(st, ("entered", S, N), ("recompute", S))

    def complete(self, st, S, N):
        return ("st", N) in st.ps and ("nn", S) in st.ps and (
            ("isreset", S) in st.ps and ("rs", N) in st.ps or ("isnot", S) in st.ps and ("rc", N) in st.ps)

    def finish(self, e, st, S):
        for _, s, N in self.get(st, "entered"):
            if s == S:
                w = "%s() enters a mode "
                if ("st", N) not in st.ps:
                    self.bad("flags", "startup", (w + "and may not request its startup although it did not have one") % self.fn.name, st, None)
                if ("nn", S) not in st.ps:
                    self.bad("flags", "repeated", (w + "and leaves the request to do so") % self.fn.name, st, None)
                if not (("isreset", S) in st.ps and ("rs", N) in st.ps or ("isnot", S) in st.ps and ("rc", N) in st.ps):
                    self.bad("flags", "reset", (w + "and requests a reset although the transition is none, or not although it is") % self.fn.name, st, None)
        if ("recompute", S) in st.ps and ("inactive", S) not in st.ps:
            self.bad("flags", "dormant", "%s() may leave the current mode of a reactor inactive although no enclosing mode is inactive" % self.fn.name, st, None)
        if ("linger", S) in st.ps and self.entering:
            self.bad("flags", "linger", "%s() may leave the current mode of a reactor active although an enclosing mode is inactive" % self.fn.name, st, None)
        self.drop(st, lambda x: x[0] in ("entered", "recompute", "linger") and x[1] == S)

    def reborn(self, e, st, aid):
        if any(x[0] != "ld" and aid in flow.atoms(x) for x in st.ps):
            self.end(e, st, lambda x: aid in flow.atoms(x[1]))
        if any(aid in flow.atoms(x) for x in st.ps):
            self.drop(st, lambda x: aid in flow.atoms(x))

    def end(self, e, st, of):
        for S in {x[1] for x in st.ps if x[0] in ("entered", "recompute", "linger") and of(x)}:
            self.finish(e, st, S)
        for x in self.get(st, "had"):
            if of(x):
                self.bad("flags", "had", "%s() withdraws the request for the startup of a mode without recording that it had one" % self.fn.name, st, None)
                self.drop(st, lambda y: y == x)
        for x in self.get(st, "timer"):
            if of(x):
                self.bad("events", "oneshot", "%s() may not restart a timer without a period of a mode that is entered with a reset" % self.fn.name, st, None)
                self.drop(st, lambda y: y == x)
        for x in self.get(st, "queued"):
            if of(x):
                self.bad("events", "kept", "%s() looks at an event of the queue and may not suspend it although its mode is not active" % self.fn.name, st, None)
                self.drop(st, lambda y: y == x)

    def ret(self, e, st, ins, val):
        self.end(e, st, lambda x: True)
        if ("request",) in st.ps and self.entering:
            self.bad("flags", "request", "%s() may make a mode active without requesting its startup and reset reactions to be triggered" % self.fn.name, st, ins)

    # -- reactions and events -------------------------------------------------------------------------------------------
    def call(self, e, st, ins, name, args):
        if name in OBTAIN:
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("active", v))
            return [(st, v)]
        if name == "lf_time_logical":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("cur", "time", v))
            return [(st, v)]
        if name == "lf_time_start":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x == ("start", v))
            self.add(st, ("start", v))
            return [(st, v)]
        self.edge(e, st, None, None)
        if name in self.sinks:
            self.executed(e, st, ins, args[self.sinks[name]], "puts a reaction on the queue")
        elif name == "pqueue_insert" and ("queue", args[0]) in st.ps:
            self.executed(e, st, ins, args[1], "puts a reaction on the queue")
        elif ins.x is None:
            c = e.ev(st, ins.ops[-1])
            for x in self.get(st, "fp"):
                if x[1] == c:
                    self.executed(e, st, ins, x[2], "executes a reaction")
        elif name == "_lf_add_suspended_event":
            self.add(st, ("suspended", args[0]))
            if self.what == "events" and ("sleep", args[0]) not in st.ps and not any(
                    p and p[-1] == ("event_t", "trigger") and self.base(a, p[-1]) == args[0] and ("inactive", v) in st.ps for a, (v, p, s) in st.mem.items()):
                self.bad("events", "awake", "%s() suspends an event at %s whose mode may be active" % (self.fn.name, ins.where()), st, ins)
        elif name == "_lf_schedule_at_tag" and self.restores:
            self.restored(e, st, ins, args)
        elif name == "lf_schedule_trigger" and self.restores:
            for x in self.get(st, "ev"):
                if x[1] == "trigger" and x[3] == args[1]:
                    self.add(st, ("again", x[2]))
            self.again(e, st, ins, args)
        elif name == "lf_recycle_event" and self.restores:
            self.dropped(e, st, ins, args[1])
        return None

    def executed(self, e, st, ins, R, what):
        self.sites += 1
        if self.active(e, st, R) or self.fn.name in EXEMPT:
            return
        if R[0] == "arg":
            self.asks.add(self.fn.args.index(R[1]))
            return
        self.bad("inactive", "reaction", "%s() %s at %s that may be within an inactive mode" % (self.fn.name, what, ins.where()), st, ins)

    def offsets(self, e, st):
        """the time when the mode was left, or the start time if it never was"""
        left = [x[3] for x in self.get(st, "ld") if x[1] == LEFT]
        return [v for v in left if not e.pmask(st, v, ZERO) & EQ] + [
            x[1] for x in self.get(st, "start") if any(e.iv(st, v)[:2] == (0, 0) for v in left)]

    def restored(self, e, st, ins, args):
        self.sites += 1
        E = [x[2] for x in self.get(st, "ev") if x[1] == "trigger" and x[3] == args[1]]
        E = [x for x in E if ("ev", "token", x, args[4]) in st.ps]
        if not E:
            self.bad("events", "event", "%s() resumes an event at %s with another trigger or token" % (self.fn.name, ins.where()), st, ins)
            return
        self.add(st, *[("again", x) for x in E])
        times = [x[3] for x in self.get(st, "ev") if x[1] == "time" and x[2] in E]
        curs = [x[2] for x in self.get(st, "cur") if x[1] == "time"]
        ms = [x[2] for x in self.get(st, "cur") if x[1] == "microstep"]
        got = lin(sums(args[2]), 1, {})
        for t in times:
            for c in curs:
                for o in self.offsets(e, st):
                    if got == {c: 1, t: 1, o: -1} and (args[3] == ZERO and ("remains", t, o, True) in st.ps or (
                            "remains", t, o, False) in st.ps and any(args[3] == flow.plus(m, 1) for m in ms)):
                        return
        self.bad("events", "remaining", "%s() resumes an event at %s at another tag than after the time that remained when its mode was left" % (self.fn.name, ins.where()), st, ins)

    def again(self, e, st, ins, args):
        """a trigger is scheduled when a mode is entered"""
        self.sites += 1
        T = args[1]
        self.drop(st, lambda x: x == ("timer", T))
        held = any(x[1] == "trigger" and x[3] == T for x in self.get(st, "ev"))
        per = [e.iv(st, x[3]) for x in self.get(st, "ld") if x[1] == PERIOD and x[2] == T]
        if not any(x[1] == OFFSET and x[2] == T and x[3] == args[2] for x in self.get(st, "ld")):
            self.bad("events", "offset", "%s() restarts a timer at %s with another delay than its offset" % (self.fn.name, ins.where()), st, ins)
        if ("mine", T) not in st.ps or not any(x[0] == "isreset" for x in st.ps):
            self.bad("events", "restart", "%s() restarts a timer at %s that may not belong to a mode that is entered with a reset" % (self.fn.name, ins.where()), st, ins)
        self.resets.add((held, not any(0 in p[2] or p[0] > 0 for p in per), not any(p[:2] == (0, 0) for p in per), ins.where()))

    def dropped(self, e, st, ins, E):
        self.sites += 1
        if ("mine", E) not in st.ps:
            self.bad("events", "other", "%s() drops an event at %s that may belong to another mode than the one that is entered" % (self.fn.name, ins.where()), st, ins)
        if ("again", E) in st.ps:
            return
        S = {x[2] for x in self.get(st, "ld") if x[1] == CHANGE}
        if any(("isreset", x) in st.ps for x in S):
            if any(x[1] in (TIMER, PERIOD) and ("ev", "trigger", E, x[2]) in st.ps and e.iv(st, x[3])[:2] == (0, 0) for x in self.get(st, "ld")):
                return
            self.bad("events", "timer", "%s() drops an event at %s when its mode is reset, although it may be that of a timer" % (self.fn.name, ins.where()), st, ins)
        elif not any(("stays", x[2]) in st.ps for x in self.get(st, "ld") if x[1] == NEXT):
            self.bad("events", "lost", "%s() drops an event at %s although its mode is entered with its history" % (self.fn.name, ins.where()), st, ins)


def run_(prog, rep, what):
    at = {f.name: f for f in prog.mod.funcs.values()}
    sinks, n = {"lf_scheduler_trigger_reaction": 1}, 0
    todo = [f for f in at.values() if f.name not in INLINE]
    done = {}
    while todo:
        f = todo.pop()
        c, entering, suspends, restores, sink, writes = None, False, False, False, False, False
        for i in f.instrs():
            if i.op in ("load", "store"):
                p = (prog.access(i)[0] or (None,))[-1]
                entering |= i.op == "store" and p == CURRENT
                restores |= i.op == "load" and p == LEFT
                sink |= i.op == "store" and p == MODE or i.op == "load" and p in KIND or i.op == "load" and p == QUEUE
                writes |= i.op == "store" and p == FLAGS
            elif i.op in ("call", "invoke"):
                sink |= i.x in sinks
                suspends |= i.x == "_lf_add_suspended_event"
        if not {"inactive": sink, "flags": entering or writes, "events": restores or suspends}[what]:
            continue
        c = Mode(prog, f, rep, what, sinks)
        c.entering, c.suspends, c.restores = entering, suspends, restores
        c.run()
        if restores and what == "events":
            ones = [w for held, zero, more, w in c.resets if zero]
            kinds = {held for held, zero, more, w in c.resets if zero}
            if False not in kinds:
                rep.violation("mode/once/" + f.name, "%s() may not restart a timer without a period when its mode is entered with a reset" % f.name)
            elif len(kinds) > 1:
                rep.violation("mode/twice/" + f.name, "%s() may restart a timer without a period twice, at %s, when its mode is entered with a reset" % (f.name, " and ".join(sorted(ones))))
            if len({held for held, zero, more, w in c.resets if more}) > 1:
                rep.violation("mode/twice/" + f.name, "%s() may restart a timer twice when its mode is entered with a reset" % f.name)
        done[f.name] = c.sites
        for k in c.asks:
            if f.name not in sinks:
                sinks[f.name] = k
                todo += [g for g in at.values() if any(i.op == "call" and i.x == f.name for i in g.instrs()) and g not in todo]
    return done


def rule(what):
    def run(config, tier, rep):
        d = run_(program(config, INLINE), rep, what)
        rep.count("functions analysed", len(d))
        rep.count("sites on paths", sum(d.values()))
    return run


inactive = rule("inactive")
flags = rule("flags")
events = rule("events")
