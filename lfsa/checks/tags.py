"""Rules about the current tag, the stop tag, waiting for physical time, and the barrier on the tag."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .guards import WAITS
from .locks import LOCK, UNLOCK
from .tagutil import tagat, order

CUR = ("environment_t", "current_tag")
STOP = ("environment_t", "stop_tag")
INLINE = {"_lf_advance_tag", "send_next_event_tag", "lf_set_stop_tag"}
# the tag is set before execution starts
INIT = {"environment_init_tags": "initialises the environment", "environment_init": "initialises the environment",
        "_lf_initialize_start_tag": "sets the start tag before execution starts"}


def fieldoff(prog, path, struct, field):
    for size, fl in prog.mod.struct_fields(struct):
        for off, (nm, s, ref) in fl.items():
            if nm == field:
                return off
    return None


def envaddr(prog, addr, path):
    """base address of the environment, given the address of one of its tag fields"""
    st, f = path[-2]
    off = fieldoff(prog, path, st, f)
    if off is None:
        return None
    return flow.plus(addr, -off - (8 if path[-1][1] == "microstep" else 0))


def writes(prog, field):
    """functions with stores to a tag field"""
    out = {}
    for f in prog.mod.funcs.values():
        for i in f.instrs():
            p = None
            if i.op == "store" and i.ops[0][0] != "undef":
                p = prog.access(i)[0]
            elif i.op == "call" and i.x and i.x.startswith(("llvm.memcpy", "memcpy")):
                p = prog.pinfo(f, i.ops[0])[0]
            if p and field in p:
                out.setdefault(f.name, []).append(i)
    return out


def releasing(prog):
    """functions that may release a lock while they run"""
    cg = prog.callgraph()
    rel = {n for n in prog.mod.funcs if cg[n] & (WAITS | {"lf_sleep"}) or n in WAITS}
    ch = True
    while ch:
        ch = False
        for n in prog.mod.funcs:
            if n not in rel and cg[n] & rel:
                rel.add(n)
                ch = True
    return rel


def tagargs(args, k):
    return (args[k], args[k + 1])


class Advance(flow.Client):
    """ps: frozenset of flags"""
    K = 48
    STABLE = locks.STABLE
    PSLIVE = True

    def __init__(self, prog, fn, rep, rel, fed):
        self.prog, self.fn, self.rep, self.rel, self.fed = prog, fn, rep, rel, fed
        self.sites, self.bad = 0, []

    def report(self, key, msg, st, ins):
        self.rep.violation("advance/%s/%s" % (key, self.fn.name), msg, trace_text(self.prog, st))

    def add(self, st, *x):
        st.ps = st.ps | frozenset(x)

    def drop(self, st, pred):
        st.ps = frozenset(x for x in st.ps if not pred(x))

    def settle(self, e, st):
        """has the last request to the coordinator been granted?"""
        for x in list(st.ps):
            if x[0] == "asked":
                if not order(e, st, x[2], x[1]) & LT:
                    self.add(st, ("granted",))
                self.drop(st, lambda y: y == x)

    def released(self, st):
        self.drop(st, lambda x: x[0] in ("fresh", "barrier"))

    def isnext(self, x):
        """is this expression (a part of) a result of get_next_event_tag()?"""
        if x[0] == "ex":
            x = x[1]
        if x[0] == "v":
            return self.nextins(self.prog.atom_ins(x[1]), set())
        return False

    def nextins(self, i, seen):
        if i is None or i.id in seen:
            return i is not None
        seen.add(i.id)
        if i.op == "call":
            return i.x == "get_next_event_tag"
        if i.op == "extractvalue":
            return i.ops[0][0] == "%" and self.nextins(self.fn.defs.get(i.ops[0][1]), seen)
        if i.op == "phi":
            return all(o[0] == "%" and self.nextins(self.fn.defs.get(o[1]), seen) for o, _ in i.x)
        return False

    def rename(self, e, st, sub):
        for x in st.ps:
            if x[0] in ("waited", "asked", "fresh", "head", "newt"):
                y = flow.subst(x, sub)
                if y != x:
                    self.add(st, y)

    def call(self, e, st, ins, name, args):
        fn = self.fn
        if name == "get_next_event_tag":
            self.settle(e, st)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] in ("fresh",))
            self.add(st, ("fresh", (("ex", v, 0), ("ex", v, 1))))
            return [(st, v)]
        if name == "pqueue_tag_peek":
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] == "head")
            self.add(st, ("head", v))
            return [(st, v)]
        if name == "lf_wait_until_time":
            return [(st, ("call", "wut", args[0], args[1]))]
        if name == "lf_send_next_event_tag" and len(args) == 4:
            V = tagargs(args, 1)
            self.settle(e, st)
            self.drop(st, lambda x: x[0] in ("granted", "asked"))
            self.released(st)
            e.default_call(st, ins, name, args)
            G = e.fresh(st, ins)
            if e.iv(st, args[3])[0] == 1 or args[3] in (("c", 1), ("c", -1)):
                self.add(st, ("asked", V, (("ex", G, 0), ("ex", G, 1))))
            return [(st, G)]
        if name == "wait_until":
            single = args[0][0] == "arg" or self.fn.mod.config.startswith("single")
            t = args[1] if single else args[0]
            envp = args[0] if single else None
            ok = single and t or self.derived(t)
            bounded = self.bounded(e, st, t) if single else False
            self.settle(e, st)
            e.default_call(st, ins, name, args)
            e.havoc(st)
            self.released(st)
            r = e.fresh(st, ins)
            other = st.copy()
            done = 0 if single else 1
            e.rel(st, r, ("c", 0), EQ if single else LT | GT)
            e.rel(other, r, ("c", 0), LT | GT if single else EQ)
            self.drop(st, lambda x: x[0] in ("waited", "bounded"))
            if ok:
                self.add(st, ("waited", t))
            if bounded:
                self.add(st, ("bounded", t))
            one, zero = ("c", 1), ("c", 0)
            if single:
                return [(st, zero), (other, r)]
            return [(st, one), (other, zero)]
        if name == "_lf_wait_on_tag_barrier":
            V = tagargs(args, 1)
            fresh = ("fresh", V) in st.ps
            e.default_call(st, ins, name, args)
            other = st.copy()
            self.drop(st, lambda x: x[0] == "barrier")
            if fresh:
                self.add(st, ("barrier",))
            e.havoc(other)
            self.released(other)
            if fresh:
                self.add(other, ("barrier",))
            r = e.fresh(other, ins)
            e.rel(other, r, ("c", 0), LT | GT)
            return [(st, ("c", 0)), (other, r)]
        if name in self.rel:
            self.released(st)
            return None
        if ("moved",) in st.ps:
            if name == "_lf_start_time_step":
                self.add(st, ("started",))
            elif name == "_lf_pop_events":
                if ("started",) not in st.ps:
                    self.report("pop-before-start", "%s() pops the events of the new tag at %s before the presence of "
                                "ports and actions was reset for it" % (fn.name, ins.where()), st, ins)
                self.add(st, ("popped",))
            elif name == "_lf_trigger_shutdown_reactions":
                self.add(st, ("shutdown",))
        return None

    def derived(self, t):
        if self.isnext(t):
            return True
        return t[0] == "call" and t[1] == "wut" and self.isnext(t[2])

    def headtag(self, e, st):
        for x in st.ps:
            if x[0] == "head":
                if 0 not in e.iv(st, x[1])[2] and e.iv(st, x[1])[0] <= 0:
                    if e.iv(st, x[1])[:2] == (0, 0):
                        return None, True
                    return None, False
                return tagat(e, st, x[1]), False
        return None, False

    def bounded(self, e, st, t):
        """single-threaded: is the tag with time t known not to be later than the stop tag and the first event?"""
        stop = cand = None
        for a, (v, p, s) in st.mem.items():
            if p and len(p) >= 2 and p[-2] == STOP and p[-1] == ("tag_t", "time"):
                stop = tagat(e, st, a)
        if stop is None:
            return False
        ht, empty = self.headtag(e, st)
        ms = {k[i][1] for k in st.facts if k[0] == "T" for i in (1, 2) if k[i][0] == t} | {("c", -1), ("c", 0xffffffff)}
        if t == stop[0]:
            ms.add(stop[1])
        for m in ms:
            A = (t, m)
            if A == stop or not order(e, st, A, stop) & GT:
                if empty or (ht and (A == ht or not order(e, st, A, ht) & GT)):
                    return True
                if ht is None and not empty:
                    continue
        return False

    def store(self, e, st, ins, addr, path, val):
        if len(path) < 2 or path[-2] != CUR or val[0] == "undef":
            return
        if self.fn.name in INIT:
            return
        self.sites += 1
        if path[-1][1] == "time":
            base = addr
            old = tagat(e, st, base)
            cands = [X for k in st.facts if k[0] == "T" for X in (k[1], k[2]) if X[0] == val]
            good = [X for X in cands if order(e, st, old, X) == LT]
            if e.pmask(st, old[0], val) == LT if old[0] is not None else False:
                good.append((val, None))
            if not good and old[1] is not None:
                # compared part by part
                good = [(val, x) for x in {k[i] for k in st.facts if k[0] in ("P", "U") for i in (1, 2)}
                        if order(e, st, old, (val, x)) == LT]
            if not good:
                self.report("order", "%s() sets the current tag at %s to a tag that was not found to be later than the "
                            "current one" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x[0] == "newt")
            self.add(st, *[("newt", X) for X in good])
            self.moved(e, st, ins, val)
        else:
            good = [x[1] for x in st.ps if x[0] == "newt"]
            if good and not any(X[1] is None or X[1] == val for X in good):
                self.report("order", "%s() sets the microstep of the current tag at %s to a value that was not part of "
                            "the comparison with the current tag" % (self.fn.name, ins.where()), st, ins)
            if not good:
                old = tagat(e, st, flow.plus(addr, -8))
                if not (old[1] is not None and e.pmask(st, old[1], val, True) == LT):
                    self.report("order", "%s() changes the microstep of the current tag at %s" % (
                        self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x[0] == "newt")

    def moved(self, e, st, ins, val):
        self.settle(e, st)
        fs = {x[0]: x for x in st.ps}
        name, where = self.fn.name, ins.where()
        w = fs.get("waited")
        cfg = self.prog.mod.config
        single = cfg.startswith("single")
        if w is None or not (w[1] == val or (self.derived(w[1]) and self.isnext(val))):
            self.report("wait", "%s() advances the current tag at %s on a path that did not complete the wait for "
                        "physical time to reach it" % (name, where), st, ins)
        if single:
            if "bounded" not in fs:
                self.report("bound", "%s() advances the current tag at %s to a tag not known to be at most the stop tag "
                            "and the first event's tag" % (name, where), st, ins)
        else:
            if not any(x[0] == "fresh" and x[1][0] == val for x in st.ps):
                self.report("fresh", "%s() advances the current tag at %s to a tag that is not the one read from the "
                            "event queue after the lock was last released" % (name, where), st, ins)
        if self.fed:
            if "barrier" not in fs:
                self.report("barrier", "%s() advances the current tag at %s without having passed the barrier on the "
                            "tag for it" % (name, where), st, ins)
        if cfg == "fed-cent" and "granted" not in fs:
            self.report("grant", "%s() advances the current tag at %s on a path where the coordinator did not grant "
                        "the tag that was requested" % (name, where), st, ins)
        self.add(st, ("moved",))

    def ret(self, e, st, ins, val):
        if ("moved",) not in st.ps or self.fn.name in INIT:
            return
        for flag, what in (("started", "resetting the presence of ports and actions (_lf_start_time_step)"),
                           ("popped", "popping the events of the tag (_lf_pop_events)")):
            if (flag,) not in st.ps:
                self.report(flag, "%s() returns at %s after it advanced the tag without %s" % (
                    self.fn.name, ins.where(), what), st, ins)


def threaded_sites(prog):
    return {n: l for n, l in writes(prog, CUR).items() if n not in INIT and n != "_lf_advance_tag"}


def advance(config, tier, rep):
    prog = program(config, inline=INLINE)
    rel = releasing(prog)
    fed = config.startswith("fed")
    sites = threaded_sites(prog)
    n = 0
    for fn in sites:
        f = prog.mod.funcs[fn]
        c = Advance(prog, f, rep, rel, fed)
        flow.Engine(prog, f, c).run([flow.Engine(prog, f, c).start(frozenset())])
        n += c.sites
    rep.count("functions that advance the tag", len(sites))
    rep.count("tag writes analysed", n)
    rep.need("functions that advance the tag in " + config, len(sites), 1)
