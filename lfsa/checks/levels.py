"""A level is left only when its reactions are done, a tag only when its levels are, and whoever sleeps is woken up."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .rti4 import lin
from .once import Track, last, R_, S_, D_, EXEC

NEXT, CURRENT = (D_, "next_reaction_level"), (D_, "current_level")
IDLE, WORKERS, MAX = (S_, "number_of_idle_workers"), (S_, "number_of_workers"), (S_, "max_reaction_level")
TAKEN = {(D_, "executing_reactions"), ("*", S_, "custom_data")}
STOP = (S_, "should_stop")
STALL = {"lf_stall_advance_level_federation": 1, "lf_stall_advance_level_federation_locked": 0}
ADVANCE = "_lf_sched_advance_tag_locked"
WAIT = {"lf_cond_wait", "_lf_cond_timedwait", "lf_clock_cond_timedwait"}


def bare(v):
    while v[0] in ("sx", "zx", "tr"):
        v = v[1]
    return v


def deep(v):
    """without casts"""
    v = bare(v)
    return tuple(deep(x) if isinstance(x, tuple) else x for x in v)


class Levels(Track):
    """the scheduler that takes all reactions of one level at a time"""
    rule = "levels"
    K = 24
    PSLIVE = False

    def __init__(self, prog, fn, rep, fed):
        super().__init__(prog, fn, rep)
        self.fed = fed

    def say(self, key, msg, st, ins):
        self.report(key, "%s() %s" % (self.fn.name, msg % (ins.where() if ins is not None else "the end")), st, ins)

    def mem(self, st, field):
        return [v for v, p, s in st.mem.values() if p and p[-1] == field]

    def fields(self, st, f):
        return self.mem(st, f)

    def rows(self, st, v):
        return [a[2] if a[0] == "ix" else ("c", 0) for a, (w, p, s) in st.mem.items() if w == v and last(p) == ("*", D_, "triggered_reactions")]

    def first(self, st, row):
        """the first reaction of a queue, if it was read"""
        return [v for a, (v, p, s) in st.mem.items() if a == row and last(p) in EXEC]

    def has(self, st, *k):
        return k in st.ps

    def edge(self, e, st, bb, succ):
        for x in self.get(st, "idle"):
            for w in self.fields(st, WORKERS):
                m = self.cmp(e, st, x[1], w)
                if not m & LT:      # there are not more idle workers than workers
                    self.add(st, ("sole",))
        for x in self.get(st, "pending"):
            if any(e.iv(st, v)[:2] == (0, 0) for v in self.first(st, x[1])):
                self.drop(st, lambda z: z == x)
        for c in self.mem(st, NEXT):
            for m in self.fields(st, MAX):
                if not e.pmask(st, c, flow.plus(m, 1)) & LT or not e.pmask(st, c, m) & (LT | EQ):
                    self.add(st, ("end",))
        for x in self.get(st, "advanced"):
            t = self.truth(e, st, x[1])
            if t is not None:
                self.drop(st, lambda y: y == x)
                self.add(st, ("over", t))
        for x in self.get(st, "woken"):
            if e.iv(st, x[1])[1] <= 1:
                self.drop(st, lambda y: y == x)
        return True

    def cmp(self, e, st, a, b):
        a, b = bare(a), bare(b)
        m = LT | EQ | GT
        for n in (32, 64):
            for x in (a, ("tr", a, n), ("sx", a, n), ("zx", a, n)):
                for y in (b, ("tr", b, n), ("sx", b, n), ("zx", b, n)):
                    m &= e.pmask(st, x, y) & e.pmask(st, x, y, True)
        return m

    def sole(self, st, ins, what):
        if not self.has(st, "sole"):
            self.say("sole", what + " at %s although another worker may still be executing reactions", st, ins)

    def call(self, e, st, ins, name, args):
        r = self.lock(e, st, ins, name, args)
        if r is not None:
            return r
        if name in ("lf_atomic_fetch_add", "lf_atomic_add_fetch"):
            p = self.prog.pinfo(self.fn, ins.ops[0])[0]
            if last(p) == IDLE:
                e.default_call(st, ins, name, args)
                v = e.fresh(st, ins)
                self.sites += 1
                self.leave(e, st, ins)
                if args[1] == ("c", 1):
                    self.add(st, ("idle", v if name == "lf_atomic_add_fetch" else flow.plus(v, 1)))
                else:
                    self.say("idle", "changes at %s the number of idle workers other than by counting itself", st, ins)
                return [(st, v)]
            if args[1] == ("c", -1) and last(p) == ("*", S_, "indexes"):
                self.leave(e, st, ins)
        elif name in STALL:
            self.add(st, ("stalled", bare(args[STALL[name]])))
        elif name == "lf_semaphore_acquire":
            self.sites += 1
            if self.has(st, "sole"):
                self.say("asleep", "goes to sleep at %s although all other workers are asleep", st, ins)
            self.drop(st, lambda x: x[0] == "idle")
        elif name == "lf_semaphore_release":
            self.sites += 1
            if self.has(st, "stop"):
                if not any(self.eqv(e, st, flow.plus(args[1], k), w) for k in (0, 1) for w in self.fields(st, WORKERS)):
                    self.say("all", "wakes up at %s other than all of the other workers to stop", st, ins)
                self.drop(st, lambda x: x == ("stop",))
                self.done(st)
            else:
                w = self.get(st, "woken")
                if not any(self.eqv(e, st, flow.plus(args[1], 1), x[1]) for x in w):
                    self.say("some", "wakes up at %s a number of workers that is not the number of those no longer counted as idle, other than itself", st, ins)
                self.drop(st, lambda x: x[0] == "woken")
                self.done(st)
        elif name == ADVANCE:
            self.sites += 1
            self.sole(st, ins, "advances the tag")
            if not self.has(st, "end") or self.get(st, "pending"):
                self.say("early", "advances the tag at %s although there may be reactions of the current tag left", st, ins)
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("adv",), ("advanced", v))
            return [(st, v)]
        return None

    def eqv(self, e, st, a, b):
        z = lambda v: {k: n for k, n in lin(deep(v)).items() if n}
        return z(a) == z(b) or e.pmask(st, a, b) == EQ

    def done(self, st):
        self.drop(st, lambda x: x[0] in ("idle", "sole", "pending", "end", "adv", "zero", "stalled", "over"))

    def store(self, e, st, ins, addr, path, val):
        f = last(path)
        if f == NEXT:
            self.sites += 1
            self.sole(st, ins, "changes the level")
            cur = st.mem.get(addr)
            cur = cur and cur[0]
            if val == ("c", 0):
                if not self.has(st, "end") or self.get(st, "pending"):
                    self.say("back", "goes back to the first level at %s although it may not be done with all levels", st, ins)
                self.add(st, ("zero",))
            elif cur is None or val != flow.plus(cur, 1):
                self.say("step", "changes the level at %s other than to the next or the first one", st, ins)
            elif self.get(st, "owes"):
                self.say("skip", "changes the level at %s again without having taken the reactions of the level before", st, ins)
            elif not self.has(st, "set", cur):
                self.add(st, ("owes", cur))     # the queue of this level becomes the current one afterwards
            else:
                self.drop(st, lambda x: x == ("set", cur))
        elif f in TAKEN and self.rows(st, val):
            self.sites += 1
            self.sole(st, ins, "takes the reactions of the next level")
            if self.get(st, "pending"):
                self.say("skip", "goes on to the next level at %s although the previous one may have reactions", st, ins)
            if self.has(st, "end"):
                if not self.has(st, "adv"):
                    self.say("over", "goes on to the first level at %s without having advanced the tag", st, ins)
                if not self.has(st, "zero"):
                    self.say("first", "goes on at %s after having advanced the tag other than with the first level", st, ins)
                self.drop(st, lambda x: x[0] in ("end", "adv", "zero"))
            if self.has(st, "over", True):
                self.say("stopped", "goes on at %s after the stop tag", st, ins)
            x = [0, 0] + self.rows(st, val)
            cur = [c for c in self.mem(st, NEXT)]
            if x[2] in cur:
                self.add(st, ("set", x[2]))
            elif any(y[1] == x[2] for y in self.get(st, "owes")):
                self.drop(st, lambda y: y == ("owes", x[2]))
            else:
                self.say("which", "takes at %s the reactions of a level other than the next one", st, ins)
            if self.fed and not self.has(st, "stalled", bare(x[2])):
                self.say("stall", "goes on to the next level at %s before it is known whether input ports of that level are present", st, ins)
            self.drop(st, lambda y: y[0] in ("stalled", "pending"))
            self.add(st, ("pending", val))
        elif f == IDLE:
            self.sites += 1
            old = [v for v in self.fields(st, IDLE)]
            self.sole(st, ins, "changes the number of idle workers")
            n = [d for d in (self.diff(e, st, o, val) for o in old) if d is not None]
            if not n:
                self.say("idle", "changes at %s the number of idle workers in an unknown way", st, ins)
            for d in n[:1]:
                self.add(st, ("woken", d))
            self.drop(st, lambda x: x[0] in ("idle", "sole", "pending", "end", "adv", "zero", "stalled", "over"))
        elif f == STOP:
            self.sites += 1
            if val == ("c", 1):
                if not self.has(st, "over", True):
                    self.say("stop", "tells all workers to stop at %s although the stop tag may not be reached", st, ins)
                self.add(st, ("stop",))

    def diff(self, e, st, old, new):
        """the value d such that new = old - d"""
        if new == ("c", 0):
            return old
        if new[0] == "bin" and new[1] == "sub" and deep(new[2]) == deep(old):
            return new[3]
        d = {k: n for k, n in lin(deep(old), 1, lin(deep(new), -1, {})).items() if n}
        return ("c", d.get(None, 0)) if not d or set(d) == {None} else None

    def leave(self, e, st, ins):
        """goes on to take a reaction"""
        if self.has(st, "stop"):
            self.say("all", "goes on at %s without having woken up the workers that are to stop", st, ins)
        if self.get(st, "woken"):
            self.say("some", "goes on at %s without having woken up the workers that are no longer counted as idle", st, ins)
        if self.has(st, "sole"):
            self.say("hang", "goes on at %s without having distributed reactions although all other workers are asleep", st, ins)
        elif self.get(st, "idle"):
            self.say("awake", "goes on at %s while it is counted as idle", st, ins)
        if self.get(st, "owes"):
            self.say("which", "goes on at %s without having taken the reactions of the level that it changed to", st, ins)

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        self.leave(e, st, ins)

    def reborn(self, e, st, aid):
        self.drop(st, lambda x: aid in flow.atoms(x))


def np(config, tier, rep):
    prog = program(config)
    f = prog.mod.funcs.get("lf_sched_get_ready_reaction")
    if f is None:
        raise AnalysisBroken("no lf_sched_get_ready_reaction")
    rep.count("changes of level, tag and idle workers on paths", Levels(prog, f, rep, config.startswith("fed")).run().sites)


class Heads(Levels):
    """the scheduler that takes one reaction at a time, in the order of a priority queue"""
    VOLATILE = ("peek", "own", "elsewhere", "none", "sole")
    STORED = (CURRENT,)

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        if last(path) == (R_, "index"):
            self.add(st, ("level", self.base(addr, last(path)), val))

    def edge(self, e, st, bb, succ):
        for v in self.mem(st, IDLE):
            for w in self.mem(st, WORKERS):
                if not self.cmp(e, st, v, flow.plus(w, -1)) & self.cmp(e, st, flow.plus(v, 1), w) & LT:
                    self.add(st, ("sole",))
        for x in self.get(st, "peek"):
            if e.iv(st, x[1])[:2] == (0, 0):
                self.add(st, ("none",))
            for y in self.get(st, "level"):
                if y[1] == x[1]:
                    for c in self.mem(st, CURRENT):
                        m = self.level(e, st, y[2], c)
                        if m == EQ:
                            self.add(st, ("own", x[1]))
                        elif not m & EQ:
                            self.add(st, ("elsewhere",))
        for x in self.get(st, "advanced"):
            t = self.truth(e, st, x[1])
            if t is not None:
                self.drop(st, lambda y: y == x)
                self.add(st, ("over", t))
        for c in self.mem(st, CURRENT):
            for m in self.mem(st, MAX):
                k = self.cmp(e, st, c, m)
                if not k & (LT | EQ) or not k & LT and not self.has(st, "moved"):
                    self.add(st, ("end",))
        return True

    def level(self, e, st, index, c):
        m = LT | EQ | GT
        for k, v in list(st.facts.items()):
            if k[0] in ("P", "U") and (k[1] == c or k[2] == c):
                o = k[2] if k[1] == c else k[1]
                if bare(flow.masked(bare(o))[0]) == bare(index):
                    m &= v
        for v in (index, bare(index)):
            for k in (0xffff,):
                x = ("bin", "and", v, ("c", k))
                m &= e.pmask(st, x, c)
        return m

    def call(self, e, st, ins, name, args):
        if name in locks.UNLOCK:
            self.leave(e, st, ins)
        if name in WAIT:
            self.sites += 1
            if not self.has(st, "counted"):
                self.say("idle", "waits at %s without being counted as idle", st, ins)
            if self.has(st, "sole"):
                self.say("asleep", "goes to sleep at %s although all other workers are asleep", st, ins)
        r = self.lock(e, st, ins, name, args)
        if r is not None:
            return r
        if name in ("pqueue_peek", "pqueue_pop"):
            self.sites += 1
            if self.has(st, "counted"):
                self.say("awake", "goes on at %s while it is counted as idle", st, ins)
            p = self.get(st, "peek")
            e.default_call(st, ins, name, args)
            v = p[0][1] if p and name == "pqueue_pop" else e.fresh(st, ins)
            self.drop(st, lambda x: x[0] in ("peek", "none", "elsewhere", "level", "moved"))
            if name == "pqueue_peek":
                self.drop(st, lambda x: x[0] == "own")
                self.add(st, ("peek", v))
            elif self.has(st, "own", v):
                self.add(st, ("took", v))
            return [(st, v)]
        if name in STALL:
            a = bare(args[STALL[name]])
            self.drop(st, lambda x: x[0] == "owed" and bare(x[1]) == a or x[0] in self.VOLATILE)
        elif name in ("lf_cond_broadcast", "lf_cond_signal"):
            if name == "lf_cond_broadcast":
                self.drop(st, lambda x: x == ("stop",))
        elif name == ADVANCE:
            self.sites += 1
            self.sole(st, ins, "advances the tag")
            if not self.has(st, "none"):
                self.say("early", "advances the tag at %s although there may be reactions of the current tag left", st, ins)
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] in self.VOLATILE)
            self.add(st, ("advanced", v))
            return [(st, v)]
        return None

    def store(self, e, st, ins, addr, path, val):
        f = last(path)
        if f == CURRENT:
            self.sites += 1
            cur = st.mem.get(addr)
            if val == ("c", 0) and (self.has(st, "end") and (self.has(st, "moved") or self.has(st, "sole") and self.has(st, "elsewhere")) or self.get(st, "advanced") or self.has(st, "over", False)):
                pass
            elif cur and val == flow.plus(cur[0], 1):
                self.sole(st, ins, "changes the level")
                if not self.has(st, "elsewhere"):
                    self.say("skip", "goes on to the next level at %s although there may be a reaction at the current one", st, ins)
            else:
                self.say("step", "changes the level at %s other than to the next one, or to the first one after the last one or when the tag was advanced", st, ins)
            self.drop(st, lambda x: x[0] in ("owed", "elsewhere", "own", "end", "moved"))
            if val != ("c", 0):
                self.add(st, ("moved",))
            if self.fed:
                self.add(st, ("owed", val))
        elif f == IDLE:
            self.sites += 1
            m = st.mem.get(addr)
            d = self.diff(e, st, m[0], val) if m else None
            if d == ("c", -1) and not self.has(st, "counted"):
                self.add(st, ("counted",))
            elif d == ("c", 1) and self.has(st, "counted"):
                self.drop(st, lambda x: x == ("counted",))
            else:
                self.say("idle", "changes at %s the number of idle workers other than by counting itself once before it waits, and no longer afterwards", st, ins)
            self.drop(st, lambda x: x == ("sole",))
        elif f == STOP:
            self.sites += 1
            if val == ("c", 1):
                if not self.has(st, "over", True):
                    self.say("stop", "tells all workers to stop at %s although the stop tag may not be reached", st, ins)
                self.add(st, ("stop",))

    def leave(self, e, st, ins):
        if self.has(st, "stop"):
            self.say("all", "goes on at %s without having woken up the workers that are to stop", st, ins)
        if self.has(st, "counted"):
            self.say("awake", "goes on at %s while it is counted as idle", st, ins)
        for x in self.get(st, "owed"):
            self.say("stall", "goes on at %s with another level before it is known whether input ports of that level are present", st, ins)

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        self.leave(e, st, ins)
        if e.iv(st, val)[:2] != (0, 0) and not self.has(st, "took", val):
            self.say("level", "hands out at %s a reaction that may not be of the current level", st, ins)


def gedf(config, tier, rep):
    prog = program(config)
    f = prog.mod.funcs.get("lf_sched_get_ready_reaction")
    if f is None:
        raise AnalysisBroken("no lf_sched_get_ready_reaction")
    rep.count("changes of level, tag and idle workers on paths", Heads(prog, f, rep, config.startswith("fed")).run().sites)
