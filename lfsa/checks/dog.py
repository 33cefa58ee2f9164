"""Watchdogs: when their handlers are called, and what starting and stopping does to the expiration."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .net import lin
from .sched import sums, lin0
from .tags import CUR, fieldoff
from .tags2 import Base

W_ = "watchdog_t"
EXP, TERM, FUN, MIN, BASE = ((W_, x) for x in ("expiration", "terminate", "watchdog_function", "min_expiration", "base"))
MUTEX = ("self_base_t", "reactor_mutex")
INIT = {"lf_mutex_init"}
INLINE = frozenset(("watchdog_wait",))
WAITS = {"lf_clock_cond_timedwait", "_lf_cond_timedwait", "lf_cond_wait", "lf_mutex_unlock"}
NEVER = ("c", -(1 << 63))


class Dog(Base):
    rule = "dog"
    K = 30
    STABLE = locks.STABLE | {BASE, FUN, MIN}

    def base(self, addr, field):
        return flow.plus(addr, -fieldoff(self.prog, None, field[0], field[1]))

    def load(self, e, st, ins, addr, path, val):
        if path:
            if path[-1] == MUTEX:
                self.add(st, ("mutex", val, addr))
            elif path[-1] == EXP:
                self.add(st, ("exp", self.base(addr, EXP), val))
            elif path[-1] == TERM:
                self.add(st, ("term", self.base(addr, TERM), val))
            elif path[-1] == FUN:
                self.add(st, ("fp", val, self.base(addr, FUN)))
            elif path[-1] == ("tag_t", "time") and len(path) >= 2 and path[-2] == CUR:
                self.add(st, ("cur", val))
            elif path[-1] == MIN:
                self.add(st, ("min", self.base(addr, MIN), val))

    def edge(self, e, st, bb, succ):
        self.learn(e, st)
        return True

    def learn(self, e, st):
        phys = [x[1] for x in st.ps if x[0] == "phys"]
        for x in list(st.ps):
            if x[0] == "exp":
                if any(not e.pmask(st, p, x[2]) & LT for p in phys):
                    self.add(st, ("past", x[1]))
                if not e.pmask(st, x[2], NEVER) & EQ:
                    self.add(st, ("started", x[1]))
            elif x[0] == "term" and e.iv(st, x[2])[:2] == (0, 0):
                self.add(st, ("alive", x[1]))

    def store(self, e, st, ins, addr, path, val):
        if path and path[-1] == MUTEX:
            self.drop(st, lambda x: x == ("freed", addr))
        if not path or path[-1] not in (EXP, TERM):
            return
        W = self.base(addr, path[-1])
        self.learn(e, st)
        self.drop(st, lambda x: x[0] == ("exp" if path[-1] == EXP else "term") and x[1] == W)
        if path[-1] == TERM:
            if not (val[0] == "c" and val[1]) and not self.starts:
                self.report("undone", "%s() may undo at %s that a watchdog was told to terminate" % (self.fn.name, ins.where()), st, ins)
            return
        if val == NEVER:
            if ("called", W) in st.ps and ("past", W) not in st.ps:
                self.report("forgotten", "%s() stops the watchdog at %s after its handler was called, which may have started it again" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("cleared", W))
        else:
            self.sites += 1
            self.drop(st, lambda x: x == ("cleared", W))
            v = lin(sums(val), 1, {})
            ok = False
            for c in st.ps:
                for m in st.ps:
                    if c[0] == "cur" and m[0] == "min" and m[1] == W:
                        want = {c[1]: 1, m[2]: 1}
                        rest = {k: n for k, n in v.items() if want.get(k) != n}
                        ok |= len(v) == len(rest) + 2 and len(rest) == 1 and list(rest.items())[0] == (("arg", self.fn.args[1]), 1) if len(self.fn.args) > 1 else False
            if not ok:
                self.report("expiration", "%s() starts the watchdog at %s with an expiration that is not the time of the current tag plus its minimum and additional timeout" % (
                    self.fn.name, ins.where()), st, ins)

    def call(self, e, st, ins, name, args):
        self.learn(e, st)
        if name in WAITS:
            self.drop(st, lambda x: x[0] in ("exp", "term", "past", "started", "alive", "cleared", "called"))
            return None
        if name == "lf_time_physical":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x == ("phys", v))
            self.add(st, ("phys", v))
            return [(st, v)]
        if name == "lf_time_logical":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("cur", v))
            return [(st, v)]
        if name == "lf_thread_create" and self.starts:
            self.add(st, ("running",))
        if name in INIT and any(x[0] == "mutex" and x[1] == args[0] for x in st.ps) and ("running",) in st.ps:
            self.report("init", "%s() initializes the mutex of a reactor at %s after it started the thread of a watchdog, which may use the same mutex" % (
                self.fn.name, ins.where()), st, ins)
        if name == "free":
            for x in list(st.ps):
                if x[0] == "mutex" and x[1] == args[0]:
                    self.add(st, ("freed", x[2]))
        if ins.x is None:
            c = e.ev(st, ins.ops[-1])
            for x in list(st.ps):
                if x[0] == "fp" and x[1] == c:
                    self.handler(e, st, ins, x[2])
        return None

    def reborn(self, e, st, aid):
        for x in list(st.ps):
            if x[0] == "freed" and aid in flow.atoms(x[1]):
                self.freed(st)
        if any(aid in flow.atoms(x) for x in st.ps):
            self.drop(st, lambda x: aid in flow.atoms(x))

    def freed(self, st):
        if any(x[0] == "freed" for x in st.ps):
            self.report("freed", "%s() frees the mutex of a reactor, but other watchdogs of the reactor still refer to it" % self.fn.name, st, None)

    def ret(self, e, st, ins, val):
        self.freed(st)

    def handler(self, e, st, ins, W):
        self.sites += 1
        w = "%s() calls the handler of a watchdog at %s " % (self.fn.name, ins.where())
        for f, t in (("past", "although it may not have expired"), ("started", "although it may have been stopped"), ("alive", "although it may have been terminated"),
                     ("cleared", "and leaves it started, so that it expires again")):
            if (f, W) not in st.ps:
                self.report(f, w + t, st, ins)
        self.drop(st, lambda x: x[0] in ("exp", "term", "past", "started", "alive", "cleared", "phys"))
        self.add(st, ("called", W))


def handlers(config, tier, rep):
    prog = program(config, INLINE)
    n = 0
    for f in prog.mod.funcs.values():
        if f.name in INLINE:
            continue
        starts = any(i.op == "call" and i.x == "lf_thread_create" for i in f.instrs())
        frees = any(i.op == "call" and i.x == "free" for i in f.instrs())
        ops = {(i.op, (prog.access(i)[0] or (None,))[-1]) for i in f.instrs() if i.op in ("load", "store")}
        if {("load", FUN), ("store", EXP), ("store", TERM)} & ops or ("load", MUTEX) in ops and (starts or frees):
            rep.count("functions that start, stop or expire watchdogs")
            d = Dog(prog, f, rep)
            d.starts = starts
            n += d.run().sites
    rep.count("starts and expirations on paths", n)
