"""Rules about where events go, how the stop tag moves, what the earliest event is, the barrier, and waiting."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .tags import CUR, STOP, INIT, fieldoff, writes
from .tagutil import tagat, order

HORIZON = ("mixed", "horizon")
MAXTAG = (("c", (1 << 63) - 1), ("c", 0xffffffff))
TYPEFACTS = {("trigger_t", "offset"), ("trigger_t", "period")}


class Base(flow.Client):
    K = 48
    STABLE = locks.STABLE
    PSLIVE = True
    rule = "?"

    def __init__(self, prog, fn, rep):
        self.prog, self.fn, self.rep, self.sites = prog, fn, rep, 0

    def report(self, key, msg, st, ins):
        self.rep.violation("%s/%s/%s" % (self.rule, key, self.fn.name), msg, trace_text(self.prog, st))

    def add(self, st, *x):
        st.ps = st.ps | frozenset(x)

    def drop(self, st, pred):
        st.ps = frozenset(x for x in st.ps if not pred(x))

    def rename(self, e, st, sub):
        for x in st.ps:
            y = flow.subst(x, sub)
            if y != x:
                self.add(st, y)

    def run(self):
        en = flow.Engine(self.prog, self.fn, self)
        self.before(en)
        en.run([en.start(frozenset())])
        return self

    def before(self, e):
        pass

    def load(self, e, st, ins, addr, path, val):
        # minimum delays, offsets and periods are not negative (they are constants of the program)
        if path and path[-1] in TYPEFACTS and val[0] != "c":
            e.rel(st, val, ("c", 0), EQ | GT)

    def envtag(self, e, st, field):
        """the current value of a tag field of the environment, if it was read or written on this path"""
        out = []
        for a, (v, p, s) in st.mem.items():
            if p and len(p) >= 2 and p[-2] == field and p[-1] == ("tag_t", "time"):
                out.append(tagat(e, st, a))
        return out


def is_field(prog, f, op, field):
    """is the operand a value loaded from this field?"""
    d = f.defs.get(op[1]) if op[0] == "%" else None
    return d is not None and d.op == "load" and (prog.access(d)[0] or (None,))[-1] == field


def tagarith(c, e, st, ins, name, args):
    """delaying a tag: later than the tag, if the delay is not negative"""
    if name in ("lf_delay_tag", "lf_delay_strict") and len(args) == 3:
        v = e.fresh(st, ins)
        A, B = (args[0], args[1]), (("ex", v, 0), ("ex", v, 1))
        lo = e.iv(st, args[2])[0]
        if lo >= 0 and name == "lf_delay_tag":
            e.tagfact(st, A, B, LT)
        elif name == "lf_delay_tag":
            e.tagfact(st, A, B, LT | EQ)
        return [(st, v)]
    return None


# ---------------------------------------------------------------------------------------------------------------------
class Insert(Base):
    """every event is queued for a tag after the current one; one that triggers something, not after the stop tag"""
    rule = "future"

    def call(self, e, st, ins, name, args):
        if name == "pqueue_tag_insert" and is_field(self.prog, self.fn, ins.ops[0], ("environment_t", "event_q")):
            self.sites += 1
            ev = args[1]
            T = tagat(e, st, ev)
            if self.fn.name not in ("lf_send_next_event_tag",) and not self.ok(e, st, T):
                self.report("past", "%s() queues an event at %s for a tag that is not known to be later than the "
                            "current tag" % (self.fn.name, ins.where()), st, ins)
            off = fieldoff(self.prog, None, "event_t", "trigger")
            trig = st.mem.get(flow.plus(ev, off))
            dummy = trig is not None and trig[0] == ("c", 0)
            stops = self.envtag(e, st, STOP)
            if not dummy and not any(not order(e, st, T, S) & GT for S in stops):
                self.report("stop", "%s() queues an event at %s for a tag that is not known to be at most the stop tag"
                            % (self.fn.name, ins.where()), st, ins)
        return tagarith(self, e, st, ins, name, args)

    def ok(self, e, st, T):
        for a, (v, p, s) in st.mem.items():
            if p and p[-1] == ("environment_t", "execution_started") and e.iv(st, v)[:2] == (0, 0):
                return True
        for C in self.envtag(e, st, CUR):
            if order(e, st, C, T) == LT:
                return True
            # a tag with a later time, whatever its microstep
            if T[0] is not None and C[0] is not None:
                t = T[0]
                if e.pmask(st, C[0], t) == LT:
                    return True
                if t[0] == "bin" and t[1] == "add" and C[0] in t[2:]:
                    d = t[3] if t[2] == C[0] else t[2]
                    if e.iv(st, d)[0] > 0 or (e.iv(st, d)[0] >= 0 and 0 in e.iv(st, d)[2]):
                        return True
                if t[0] == "+" and t[1] == C[0] and t[2] > 0:
                    return True
        return False


def future(config, tier, rep):
    prog = program(config, inline={"lf_time_logical", "_lf_create_dummy_events"})
    n = 0
    for f in list(prog.mod.funcs.values()):
        if any(i.op == "call" and i.x == "pqueue_tag_insert" and is_field(prog, f, i.ops[0], ("environment_t", "event_q"))
               for i in f.instrs()):
            n += Insert(prog, f, rep).run().sites
            rep.count("functions that queue events")
    rep.count("paths to an insertion", n)
    rep.need("insertions into the event queue in " + config, n, 3)


# ---------------------------------------------------------------------------------------------------------------------
class StopSet(Base):
    """the stop tag is only ever lowered, and (where it is computed from what a thread knows) stays after the current tag"""
    rule = "stopset"

    def store(self, e, st, ins, addr, path, val):
        if len(path) < 2 or path[-2] != STOP or val[0] == "undef" or self.fn.name in INIT:
            return
        self.sites += 1
        if path[-1][1] == "time":
            self.drop(st, lambda x: x[0] == "old")
            old = tagat(e, st, addr)
            self.add(st, ("old", old))
            cands = [X for k in st.facts if k[0] == "T" for X in (k[1], k[2]) if X[0] == val]
            good = [X for X in cands if not order(e, st, X, old) & GT]
            if not good and old[0] is not None and e.pmask(st, val, old[0]) == LT:
                good = [(val, None)]
            if not good:
                self.report("raise", "%s() sets the stop tag at %s to a tag that was not found to be at most the previous "
                            "stop tag" % (self.fn.name, ins.where()), st, ins)
            self.add(st, *[("new", X) for X in good])
        else:
            good = [x[1] for x in st.ps if x[0] == "new"]
            if good and not any(X[1] is None or X[1] == val for X in good):
                self.report("microstep", "%s() sets the microstep of the stop tag at %s to a value that was not part of "
                            "the comparison with the previous stop tag" % (self.fn.name, ins.where()), st, ins)
            elif not good:
                old = tagat(e, st, flow.plus(addr, -8))
                if not (old[1] is not None and not e.pmask(st, val, old[1], True) & GT):
                    self.report("raise", "%s() changes the microstep of the stop tag at %s to a value not found to be at "
                                "most the previous one" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x[0] == "new")


class StopArg(Base):
    """a stop tag is requested for a tag after the current one"""
    rule = "stopset"
    # the barrier keeps every environment at or before the greatest current tag that was found
    EXEMPT = {"lf_request_stop"}

    def call(self, e, st, ins, name, args):
        if name == "lf_set_stop_tag":
            self.sites += 1
            T = (args[1], args[2])
            base = args[0]
            cs = self.envtag(e, st, CUR)
            if self.fn.name in self.EXEMPT:
                return None
            if not any(order(e, st, C, T) == LT for C in cs):
                self.report("past", "%s() requests at %s to stop at a tag that was not found to be later than the current "
                            "tag" % (self.fn.name, ins.where()), st, ins)
        return None


def stopset(config, tier, rep):
    prog = program(config, inline={"lf_time_logical"}, keep={"handle_stop_granted_message"})
    n = m = 0
    for name in writes(prog, STOP):
        n += StopSet(prog, prog.mod.funcs[name], rep).run().sites
        rep.count("functions that write the stop tag")
    for f in list(prog.mod.funcs.values()):
        if any(i.op == "call" and i.x == "lf_set_stop_tag" for i in f.instrs()):
            m += StopArg(prog, f, rep).run().sites
    rep.count("writes of the stop tag", n)
    rep.count("requests to stop at a tag", m)
    rep.need("writes of the stop tag in " + config, n, 1)


# ---------------------------------------------------------------------------------------------------------------------
class NextEvent(Base):
    rule = "next"

    def call(self, e, st, ins, name, args):
        if name == "pqueue_tag_peek":
            v = e.fresh(st, ins)
            self.add(st, ("head", v))
            return [(st, v)]
        return None

    def ret(self, e, st, ins, val):
        self.sites += 1
        T = tuple(self.part(e, st, val, k) for k in (0, 1))
        stops = self.envtag(e, st, STOP)
        heads = [x[1] for x in st.ps if x[0] == "head"]
        if not any(T == S or not order(e, st, T, S) & GT for S in stops):
            self.report("stop", "%s() returns at %s a tag that is not known to be at most the stop tag" % (
                self.fn.name, ins.where()), st, ins)
        for h in heads:
            if e.iv(st, h)[:2] == (0, 0):
                if not (T == MAXTAG or self.forever(T) or T in stops):
                    self.report("empty", "%s() returns at %s, for an empty event queue, neither FOREVER nor the stop tag"
                                % (self.fn.name, ins.where()), st, ins)
                continue
            H = tagat(e, st, h)
            if T == H:
                continue
            if T in stops and not order(e, st, T, H) & GT:
                continue
            self.report("head", "%s() returns at %s a tag that is neither that of the first event nor a smaller stop tag"
                        % (self.fn.name, ins.where()), st, ins)
        if not heads:
            self.report("head", "%s() returns at %s without looking at the first event" % (self.fn.name, ins.where()),
                        st, ins)

    def part(self, e, st, val, k):
        if val[0] == "agg":
            return dict(val[1:]).get(k, ("undef",))
        return ("ex", val, k)

    def forever(self, T):
        return T[0] == MAXTAG[0] and T[1][0] == "c" and T[1][1] & 0xffffffff == 0xffffffff


def next_event(config, tier, rep):
    prog = program(config)
    f = prog.mod.funcs.get("get_next_event_tag")
    if f is None:
        raise AnalysisBroken("anchor lost: get_next_event_tag in " + config)
    rep.count("paths to a return", NextEvent(prog, f, rep).run().sites)
