"""An enabled reaction is queued exactly once, taken exactly once, and released exactly once."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .mode import FLAGS, MODE, ACTIVE, Mode
from .sched import KIND, OBTAIN, OUTPUTS, DOWN, INLINE
from .tags import fieldoff
from .tags2 import Base

R_, S_, D_ = "reaction_t", "lf_scheduler_t", "custom_scheduler_data_t"
STATUS = (R_, "status")
INACTIVE, QUEUED = ("c", 0), ("c", 1)
CAS = {"lf_atomic_bool_compare_and_swap", "lf_atomic_val_compare_and_swap"}
TRIGGER = {"_lf_trigger_reaction": 1, "lf_scheduler_trigger_reaction": 1}
EXEC = {("*", D_, "executing_reactions"), ("*", "*", S_, "custom_data"), ("*", "*", D_, "triggered_reactions")}
# arrays of reactions that are to be triggered
REACTIONS = {("*", "trigger_t", "reactions"), ("*", "environment_t", "startup_reactions"), ("*", "environment_t", "shutdown_reactions")}
PLAIN = {"adaptive"}


def last(path):
    return path[-1] if path else None


class Track(Base):
    K = 24

    def __init__(self, prog, fn, rep, threaded=True):
        super().__init__(prog, fn, rep)
        self.threaded = threaded

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def base(self, addr, field):
        return flow.plus(addr, -fieldoff(self.prog, None, *field))

    def isstatus(self, ins, i=0):
        p = self.prog.pinfo(self.fn, ins.ops[i])[0]
        return bool(p) and p[-1] == STATUS

    def truth(self, e, st, v):
        while v[0] in ("zx", "tr", "b2i"):
            v = v[1]
        d = st.facts.get(("B", v))
        if d is not None:
            return d
        lo, hi, ne = e.iv(st, v)
        return False if lo == hi == 0 else True if 0 in ne or lo > 0 or hi < 0 else None

    def lock(self, e, st, ins, name, args):
        if name in locks.LOCK:
            self.add(st, ("held", args[0]))
            e.havoc(st)
            return [(st, ("c", 0))]
        if name in locks.UNLOCK:
            self.drop(st, lambda x: x == ("held", args[0]))
            self.drop(st, lambda x: x[0] in self.VOLATILE)
            return [(st, ("c", 0))]
        if name in ("lf_cond_wait", "_lf_cond_timedwait", "lf_clock_cond_timedwait"):
            self.drop(st, lambda x: x[0] in self.VOLATILE)
        return None
    VOLATILE = ()


class Claim(Track):
    """the entry of the scheduler: changes the status from inactive to queued, and then puts the reaction into the queue"""
    rule = "claim"

    def load(self, e, st, ins, addr, path, val):
        f = last(path)
        if f == STATUS:
            self.drop(st, lambda x: x[0] == "st" and x[1] == self.base(addr, f))
            self.add(st, ("st", self.base(addr, f), val))
        elif f == ("*", D_, "triggered_reactions"):
            self.add(st, ("row", val, addr))
        elif f == (S_, "indexes"):
            self.add(st, ("indexes", val))
        elif f == (D_, "triggered_reactions"):
            self.add(st, ("rows", val))
        elif f == (R_, "index"):
            self.add(st, ("index", self.base(addr, f), val))

    def edge(self, e, st, bb, succ):
        for x in self.get(st, "cas"):
            t = self.truth(e, st, x[2])
            if t is not None:
                self.drop(st, lambda y: y == x)
                if t:
                    self.add(st, ("won", x[1]))
        for x in self.get(st, "st"):
            if e.iv(st, x[2])[:2] == (0, 0):
                self.add(st, ("free", x[1]))
        return True

    def call(self, e, st, ins, name, args):
        r = self.lock(e, st, ins, name, args)
        if r is not None:
            return r
        if name in CAS and self.isstatus(ins):
            R = self.base(args[0], STATUS)
            if args[1:] == [INACTIVE, QUEUED]:
                self.sites += 1
                e.default_call(st, ins, name, args)
                v = e.fresh(st, ins)
                self.add(st, ("cas", R, v))
                return [(st, v)]
            if args[2] == QUEUED:
                self.report("from", "%s() queues a reaction at %s whatever its status was" % (self.fn.name, ins.where()), st, ins)
        elif name in ("lf_atomic_fetch_add", "lf_atomic_add_fetch") and self.atlevel(st, args[0], "indexes", 4) is not None:
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            if args[1] == ("c", 1):
                self.add(st, ("slot", v if name == "lf_atomic_fetch_add" else flow.plus(v, -1), self.atlevel(st, args[0], "indexes", 4)))
            return [(st, v)]
        elif name == "pqueue_insert":
            self.insert(e, st, ins, args[1])
        return None

    def atlevel(self, st, addr, what, size):
        """the index at which an array is accessed"""
        for x in self.get(st, what):
            if addr == x[1]:
                return ("c", 0)
            if addr[0] == "ix" and addr[1] == x[1] and addr[3] == size:
                return addr[2]
        return None

    def insert(self, e, st, ins, R):
        w = "%s() puts a reaction into the queue at %s " % (self.fn.name, ins.where())
        if ("won", R) not in st.ps:
            self.report("unclaimed", w + "without having changed its status from inactive to queued", st, ins)
        if ("in", R) in st.ps:
            self.report("again", w + "for the second time", st, ins)
        self.add(st, ("in", R))

    def store(self, e, st, ins, addr, path, val):
        f = last(path)
        if f == STATUS and val == QUEUED:
            R = self.base(addr, f)
            self.sites += 1
            if self.threaded:
                self.report("race", "%s() changes the status of a reaction to queued at %s although another thread may do so at the same time" % (
                    self.fn.name, ins.where()), st, ins)
            elif ("free", R) not in st.ps and ("won", R) not in st.ps:
                self.report("from", "%s() queues a reaction at %s whatever its status was" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x == ("in", R))
            self.add(st, ("won", R))
        elif f == ("*", "*", D_, "triggered_reactions"):
            self.insert(e, st, ins, val)
            row = [x for x in self.get(st, "row") if addr == x[1] or addr[0] == "ix" and addr[1] == x[1]]
            lv = row and self.atlevel(st, row[0][2], "rows", 8)
            slots = [x for x in self.get(st, "slot") if addr[0] == "ix" and addr[2] in (x[1], ("sx", x[1]))]
            w = "%s() puts a reaction at %s " % (self.fn.name, ins.where())
            if not slots:
                self.report("slot", w + "into a place that it did not reserve", st, ins)
            elif lv is None or not all(x[2] == lv for x in slots):
                self.report("level", w + "into a place that it reserved for another level", st, ins)
            elif not any(x[1] == val and flow.masked(lv)[0] == x[2] for x in self.get(st, "index")):
                self.report("level", w + "into the queue of a level that is not its own", st, ins)

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        for x in self.get(st, "won"):
            if ("in", x[1]) not in st.ps:
                self.report("lost", "%s() returns at %s without having put into the queue the reaction whose status it changed to queued" % (self.fn.name, ins.where()), st, ins)
        if self.get(st, "cas"):
            self.report("ignored", "%s() returns at %s without having found out whether the reaction was queued already" % (self.fn.name, ins.where()), st, ins)


def claim(config, tier, rep):
    prog = program(config)
    threaded = any(f == "lf_sched_get_ready_reaction" for f in prog.mod.funcs)
    for f in prog.mod.funcs.values():
        if f.name == "_lf_trigger_reaction" and threaded:
            if not any(i.callee == "lf_scheduler_trigger_reaction" for i in f.instrs()):
                rep.violation("claim/entry/" + f.name, "%s() does not hand the reaction to the scheduler" % f.name)
            continue
        if not any(i.op == "call" and i.callee in CAS and (prog.pinfo(f, i.ops[0])[0] or (None,))[-1] == STATUS or
                   i.op == "store" and last(prog.access(i)[0]) == STATUS or
                   i.op == "store" and last(prog.access(i)[0]) == ("*", "*", D_, "triggered_reactions") for i in f.instrs()):
            continue
        c = Claim(prog, f, rep, threaded).run()
        rep.count("places that claim a reaction", c.sites)


class Take(Track):
    """what the scheduler hands out is no longer in the queue"""
    rule = "take"
    VOLATILE = ("peek", "ixv", "cell")

    def __init__(self, prog, fn, rep, fed):
        super().__init__(prog, fn, rep)
        self.fed = fed

    def load(self, e, st, ins, addr, path, val):
        f = last(path)
        if f == (S_, "indexes"):
            self.add(st, ("indexes", val))
        elif f in EXEC:
            if addr[0] == "ix" and any(x[1] == addr[2] or ("sx", x[1]) == addr[2] for x in self.get(st, "ixv")) and e.iv(st, addr[2])[0] >= 0:
                self.drop(st, lambda x: x[0] == "cell" and x[2] == val)
                self.add(st, ("cell", addr, val))

    def store(self, e, st, ins, addr, path, val):
        if last(path) in EXEC and val == ("c", 0):
            for x in self.get(st, "cell"):
                if x[1] == addr:
                    self.add(st, ("out", x[2]))

    def call(self, e, st, ins, name, args):
        r = self.lock(e, st, ins, name, args)
        if r is not None:
            return r
        if name in ("lf_atomic_fetch_add", "lf_atomic_add_fetch") and any(args[0] == x[1] or args[0][0] == "ix" and args[0][1] == x[1] for x in self.get(st, "indexes")):
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            if args[1] == ("c", -1) and (not self.fed or self.get(st, "held")):
                self.add(st, ("ixv", v if name == "lf_atomic_add_fetch" else flow.plus(v, -1)))
            return [(st, v)]
        if name in ("pqueue_peek", "pqueue_pop"):
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            locked = bool(self.get(st, "held"))
            if name == "pqueue_peek":
                if locked:
                    self.add(st, ("peek", args[0], v))
            else:
                for x in self.get(st, "peek"):
                    if x[1] == args[0]:
                        self.add(st, ("out", x[2]))
                self.drop(st, lambda x: x[0] == "peek")
                if locked:
                    self.add(st, ("out", v))
            return [(st, v)]
        return None

    def reborn(self, e, st, aid):
        self.drop(st, lambda x: aid in flow.atoms(x))

    def ret(self, e, st, ins, val):
        if e.iv(st, val)[:2] == (0, 0):
            return
        self.sites += 1
        if ("out", val) not in st.ps:
            self.report("stays", "%s() may hand out at %s a reaction that stays in the queue, or that another worker takes as well" % (self.fn.name, ins.where()), st, ins)


def take(config, tier, rep):
    prog = program(config)
    f = prog.mod.funcs.get("lf_sched_get_ready_reaction")
    if f is None:
        raise AnalysisBroken("no lf_sched_get_ready_reaction")
    c = Take(prog, f, rep, config.startswith("fed")).run()
    rep.count("places that hand out a reaction", c.sites)


class Done(Track):
    """a reaction that was taken is released before the next one is taken"""
    rule = "done"

    def edge(self, e, st, bb, succ):
        for x in self.get(st, "taken"):
            if self.truth(e, st, x[1]) is False:
                self.drop(st, lambda y: y == x)
        return True

    def load(self, e, st, ins, addr, path, val):
        pass

    def store(self, e, st, ins, addr, path, val):
        if last(path) == STATUS and val == INACTIVE:
            self.release(e, st, ins, self.base(addr, STATUS))

    def release(self, e, st, ins, R):
        if ("taken", R) not in st.ps and (self.get(st, "taken") or ("done", R) in st.ps):
            self.report("other", "%s() releases at %s a reaction other than the one that was taken, or one for the second time" % (self.fn.name, ins.where()), st, ins)
        self.drop(st, lambda x: x == ("taken", R))
        self.add(st, ("done", R))

    def call(self, e, st, ins, name, args):
        if name in OBTAIN:
            self.left(e, st, ins, "takes another reaction")
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.sites += 1
            self.drop(st, lambda x: x[0] in ("taken", "done"))
            self.add(st, ("taken", v))
            return [(st, v)]
        if name == "lf_sched_done_with_reaction":
            self.release(e, st, ins, args[1])
        elif name in CAS and self.isstatus(ins) and args[2] == INACTIVE:
            self.add(st, ("done", self.base(args[0], STATUS)))
        return None

    def left(self, e, st, ins, what):
        self.edge(e, st, None, None)
        if self.get(st, "taken"):
            self.report("kept", "%s() %s at %s without having set the status of the one that was taken back to inactive" % (self.fn.name, what, ins.where()), st, ins)

    def ret(self, e, st, ins, val):
        self.left(e, st, ins, "returns")
        if self.fn.name == "lf_sched_done_with_reaction" and not self.get(st, "done"):
            self.report("status", "%s() returns at %s without having set the status of the reaction back to inactive" % (self.fn.name, ins.where()), st, ins)


def done(config, tier, rep):
    prog = program(config, INLINE)
    for f in prog.mod.funcs.values():
        if f.name in INLINE:
            continue
        if f.name == "lf_sched_done_with_reaction" or f.name != "lf_sched_get_ready_reaction" and any(
                i.op == "call" and i.callee in OBTAIN and isqueue(prog, f, i) for i in f.instrs()):
            c = Done(prog, f, rep).run()
            rep.count("functions that take or release reactions")


def isqueue(prog, f, i):
    if i.callee != "pqueue_pop":
        return True
    p = prog.pinfo(f, i.ops[0])[0]
    d = f.defs.get(i.ops[0][1]) if i.ops[0][0] == "%" else None
    return d is not None and d.op == "load" and last(prog.access(d)[0]) == ("environment_t", "reaction_q")


class Spread(Track):
    """every reaction that depends on what happened is triggered, unless it was already or its mode is inactive"""
    rule = "spread"
    STABLE = locks.STABLE | {MODE}
    K = 48

    def load(self, e, st, ins, addr, path, val):
        f = last(path)
        if f is None:
            return
        if f in REACTIONS and srcfn(ins) in self.within:
            self.sites += 1
            if not any(val in x[1:] for x in self.get(st, "elem")):
                self.add(st, ("elem", val))
            if f[1] == "environment_t":
                self.add(st, ("own", val))
        elif f in KIND:
            self.settle(st, self.base(addr, f))
        elif f in (STATUS, MODE):
            self.add(st, ("f", f[1], self.base(addr, f), val))
        elif f == FLAGS:
            self.add(st, ("f", "flags", self.base(addr, f), val))

    # ("elem", names..): a reaction that must still be triggered, by the names of the variables that hold it
    def settle(self, st, R):
        self.drop(st, lambda x: x[0] == "elem" and R in x[1:])

    def rename(self, e, st, sub):
        for v, at in sub:
            for x in self.get(st, "elem"):
                if v in x[1:] and at not in x[1:]:
                    self.drop(st, lambda y: y == x)
                    self.add(st, ("elem",) + tuple(sorted(x[1:] + (at,), key=repr)))
                elif at in x[1:] and v not in x[1:]:
                    self.drop(st, lambda y: y == x)
                    if len(x) == 2:
                        self.lost(e, st, "forgets")
                    else:
                        self.add(st, tuple(y for y in x if y != at))
        for x in st.ps:
            if x[0] != "elem":
                y = flow.subst(x, sub)
                if y != x:
                    self.add(st, y)

    def edge(self, e, st, bb, succ):
        live = set(st.env.values())
        for x in self.get(st, "elem"):
            n = tuple(y for y in x[1:] if y in live)
            if n and n != x[1:]:
                self.drop(st, lambda y: y == x)
                self.add(st, ("elem",) + n)
        for x in self.get(st, "elem"):
            for R in x[1:]:
                if x not in st.ps:
                    break
                if self.truth(e, st, R) is False or R == ("c", 0):
                    self.settle(st, R)
                    break
                for y in self.get(st, "f"):
                    if y[2] == R and y[1] == "status":
                        lo, hi, ne = e.iv(st, y[3])
                        if lo > 0 or 0 in ne:
                            self.settle(st, R)
                    elif y[2] == R and y[1] == "mode":
                        if ("own", R) in st.ps and self.truth(e, st, y[3]):
                            self.settle(st, R)      # the reactions of a mode are triggered when it is entered (M02)
                        for z in self.get(st, "f"):
                            if z[1] == "flags" and z[2] == y[3] and Mode.bits(self, e, st, z[3])[1] & ACTIVE:
                                self.settle(st, R)
        el = self.get(st, "elem")
        for x in el:
            for y in el:
                if repr(x) < repr(y) and any(e.pmask(st, a, b) == EQ for a in x[1:] for b in y[1:]):
                    # one and the same reaction
                    self.drop(st, lambda z: z in (x, y))
                    self.add(st, ("elem",) + tuple(sorted(set(x[1:] + y[1:]), key=repr)))
        return True

    def bits(self, e, st, v):
        return Mode.bits(self, e, st, v)

    def call(self, e, st, ins, name, args):
        if name in TRIGGER:
            self.settle(st, args[TRIGGER[name]])
        return None

    def reborn(self, e, st, aid):
        v = ("v", aid)
        live = {y for y in st.env.values() if y != v}
        for x in self.get(st, "elem"):
            if v in x[1:]:
                n = tuple(y for y in x[1:] if y in live)
                self.drop(st, lambda y: y == x)
                if n:
                    self.add(st, ("elem",) + n)
                else:
                    self.lost(e, st, "looks at the next reaction")
        if any(aid in flow.atoms(x) for x in st.ps):
            self.drop(st, lambda x: aid in flow.atoms(x))

    def lost(self, e, st, what):
        self.report("lost", "%s() %s although it may not have triggered a reaction that depends on what happened, and that is not queued already" % (
            self.fn.name, what), st, None)

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        if self.get(st, "elem"):
            self.lost(e, st, "returns")


def spread(config, tier, rep):
    prog = program(config, frozenset(("_lf_mode_is_active",)) | INLINE)
    for f in prog.mod.funcs.values():
        # the source functions that trigger reactions, themselves or by what they call
        within = {x[2] for i in f.instrs() if i.op == "call" and i.callee in TRIGGER for x in prog.mod.loc(i.dbg) or ()}
        if any(i.op == "load" and last(prog.access(i)[0]) in REACTIONS and srcfn(i) in within for i in f.instrs()):
            c = Spread(prog, f, rep)
            c.within = within
            c.run()
            rep.count("functions that trigger the reactions of a list")
