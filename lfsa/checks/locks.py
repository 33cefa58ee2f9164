"""Lock balance: every acquired internal lock is released on every path, none is released that is not held."""
from .. import flow
from ..common import *

LOCK = {"lf_mutex_lock", "pthread_mutex_lock", "lf_platform_mutex_lock"}
UNLOCK = {"lf_mutex_unlock", "pthread_mutex_unlock", "lf_platform_mutex_unlock"}
WRAPPERS = LOCK | UNLOCK
STABLE = frozenset({("self_base_t", "reactor_mutex"), ("watchdog_t", "base"), ("lf_scheduler_t", "env"),
                    ("lf_scheduler_t", "custom_data"), ("enclave_info_t", "env"), ("reaction_t", "self"),
                    ("environment_t", "scheduler"), ("rti_common_t", "mutex"), ("@", "trace_mutex"),
                    ("@", "rti_remote"), ("@", "rti_common"), ("@", "rti_local"),
                    ("custom_scheduler_data_t", "array_of_mutexes"),
                    ("self_base_t", "environment"), ("lf_port_base_t", "source_reactor"), ("@", "_lf_normal_termination"), ("@", "lf_env"),
                    ("custom_scheduler_data_t", "solo_holds_mutex")})


def lockclass(prog, ins):
    return lockclass_op(prog, ins.fn, ins.ops[0])


def adjust(ps, key, d):
    l = dict(ps)
    l[key] = l.get(key, 0) + d
    if l[key] == 0:
        del l[key]
    return tuple(sorted(l.items(), key=repr))




def subst(e, m):
    """replace arguments by the caller's values; None when something of the callee remains"""
    if e[0] == "arg":
        return m.get(e[1])
    if e[0] == "v":
        return None
    if e[0] in ("c", "@"):
        return e
    if e[0] == "al":
        return None
    out = []
    for x in e:
        if isinstance(x, tuple):
            x = subst(x, m)
            if x is None:
                return None
        out.append(x)
    r = tuple(out)
    return flow.plus(r[1], r[2]) if r[0] == "+" else r


class Locks(flow.Client):
    K = 32
    STABLE = STABLE

    def __init__(self, an, fn):
        self.an, self.prog, self.fn = an, an.prog, fn
        self.ops = 0
        self.req = {}           # (lock expr | None, class) -> (ins, st)
        self.bad = []
        self.order = {}         # (held class, acquired class) -> (ins, via)
        self.acq = set()        # classes acquired here or below

    def find(self, e, st, lock, cls):
        """the held (or borrowed) entry that denotes this lock"""
        for (l, c), n in st.ps:
            if l == lock:
                return (l, c)
        for (l, c), n in st.ps:
            if c == cls and (l is None or lock is None or (flow.root(l) != flow.root(lock) and (
                    flow.root(l)[0] == "v" or flow.root(lock)[0] == "v"))):
                return (l, c)
        return (lock, cls)

    def need(self, k, ins, st):
        self.req.setdefault(k, (ins, st.copy()))

    def call(self, e, st, ins, name, args):
        if name in LOCK:
            self.ops += 1
            cls = lockclass(self.prog, ins)
            k = self.find(e, st, args[0], cls)
            for (l, c), n in st.ps:
                if n > 0 and c != k[1]:
                    self.order.setdefault((c, k[1]), (ins, None))
                elif n > 0 and (l, c) != k:
                    self.order.setdefault((c, k[1]), (ins, None))
            self.acq.add(k[1])
            e.havoc(st)
            st.ps = adjust(st.ps, k, 1)
            return [(st, ("c", 0))]
        if name in UNLOCK:
            self.ops += 1
            k = self.find(e, st, args[0], lockclass(self.prog, ins))
            st.ps = adjust(st.ps, k, -1)
            if dict(st.ps).get(k, 0) < 0:
                self.need(k, ins, st)
            return [(st, ("c", 0))]
        if name in self.an.touch:
            f = self.prog.mod.funcs[name]
            s = self.an.summary(name, self.an.spec(e, st, f, args))
            if s is not None:
                m = dict(zip(f.args, args))
                ops = dict(zip(f.args, ins.ops))
                for (l, c), (i2, _s) in s.req.items():
                    l2 = subst(l, m) if l is not None else None
                    if l is not None and l[0] == "arg" and c == "?":
                        c = lockclass_op(self.prog, ins.fn, ops.get(l[1], ("undef",)))
                    k = self.find(e, st, l2, c)
                    if dict(st.ps).get(k, 0) <= 0:
                        self.need(k, ins, st)
                for c in s.acq:
                    if c == "?":
                        continue
                    self.acq.add(c)
                    for (l, h), n in st.ps:
                        if n > 0 and h != c:
                            self.order.setdefault((h, c), (ins, name))
        return None

    def ret(self, e, st, ins, val):
        if st.ps:
            self.bad.append((st, ins))


def field_target(prog, path):
    """the global that every store to a pointer field puts there, when there is exactly one"""
    tab = getattr(prog, "_ftarget", None)
    if tab is None:
        tab = prog._ftarget = {}
        for f in prog.mod.funcs.values():
            for i in f.instrs():
                if i.op == "store" and i.tys[0] == "ptr":
                    p, _ = prog.access(i)
                    if p and p[-1][0] not in ("*", "@"):
                        v = i.ops[0]
                        tab.setdefault(p[-1], set()).add(v[1] if v[0] == "@" else "null" if v[0] in ("c", "zero") else None)
    s = tab.get(path[-1], set()) - {"null"} if path else ()
    return next(iter(s)) if len(s) == 1 and None not in s else None


def lockclass_op(prog, fn, op):
    d = fn.defs.get(op[1]) if op[0] == "%" else None
    if d is not None and d.op == "load":
        g = field_target(prog, prog.access(d)[0])
        if g:
            return "@" + g
    p, t = prog.pinfo(fn, op)
    if p and p[-1][0] != "*":
        return ".".join(p[-1][-2:]) if p[-1][0] != "@" else "@" + p[-1][1]
    if p:
        return "*" + ".".join(p[-1][1:])
    return "?"


class Analysis:
    client = Locks

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        cg = prog.callgraph()
        self.touch = {n for n in prog.mod.funcs if n not in WRAPPERS and cg[n] & WRAPPERS}
        ch = True
        while ch:
            ch = False
            for n in prog.mod.funcs:
                if n not in WRAPPERS and n not in self.touch and cg[n] & self.touch:
                    self.touch.add(n)
                    ch = True
        self.memo, self.active = {}, set()

    def spec(self, e, st, f, args):
        """which pointer arguments are null / not null at a call: callees with optional mutexes are analysed per
        calling pattern"""
        out = []
        for a, t in zip(args, f.argtys):
            if t != "ptr":
                out.append(None)
                continue
            lo, hi, ne = e.iv(st, a)
            out.append("null" if lo == hi == 0 else "nn" if 0 in ne or lo > 0 else None)
        return tuple(out)

    def summary(self, name, spec):
        k = (name, spec)
        if k in self.memo:
            return self.memo[k]
        if k in self.active:
            return None
        self.active.add(k)
        f = self.prog.mod.funcs[name]
        c = self.client(self, f)
        e = flow.Engine(self.prog, f, c)
        facts = []
        for n, s in zip(f.args, spec):
            if s:
                facts.append((("cmp", "eq", ("arg", n), ("c", 0)), s == "null"))
        st = e.start((), facts)
        e.run([st])
        c.exits = len(e.exits)
        self.active.discard(k)
        self.memo[k] = c
        return c

    def roots(self):
        """entry points: functions nobody in the module calls, thread bodies and callbacks, and the whole public API"""
        out = []
        at = address_taken(self.prog.mod)
        called = set()
        for s in self.prog.callgraph().values():
            called |= s
        for n in self.prog.mod.funcs:
            if n in WRAPPERS or n in SEE_THROUGH or n not in self.touch:
                continue
            if n not in KNOWN and n not in at and n in called:
                continue        # a helper that was inlined into its callers
            out.append((n, n in at or n not in called))
        return out


def balance(config, tier, rep):
    prog = program(config)
    an = Analysis(prog, rep)
    rs = an.roots()
    none = lambda n: tuple(None for _ in prog.mod.funcs[n].args)
    for n, isroot in rs:
        if isroot:
            an.summary(n, none(n))
    done = {n for n, _ in an.memo}
    for n, isroot in rs:
        if n not in done:
            an.summary(n, none(n))
    for (n, sp), c in an.memo.items():
        rep.count("function contexts analysed")
        rep.count("lock operations on paths", c.ops)
        rep.count("paths to a return", c.exits)
        if n not in KNOWN and n not in address_taken(prog.mod):
            continue
        for st, ins in c.bad:
            held = "; ".join("%s %s" % (cls.lstrip("*@"), "still held" if k > 0 else "released too often")
                             for (l, cls), k in st.ps)
            cl = "+".join(sorted(cls for (l, cls), k in st.ps))
            rep.violation("balance/%s/%s" % (n, cl), "%s() returns at %s with %s" % (n, ins.where(), held),
                          trace_text(prog, st))
    for n, isroot in rs:
        c = an.memo.get((n, none(n)))
        if not isroot or c is None:
            continue
        for (l, cls), (ins, st) in c.req.items():
            rep.violation("unheld/%s/%s" % (n, cls), "entry point %s() releases %s, or calls what releases it, at %s "
                          "without holding it" % (n, cls.lstrip("*@"), ins.where()), trace_text(prog, st))
    rep.count("lock call sites", sum(1 for f in prog.mod.funcs.values() for i in f.instrs()
                                     if i.op == "call" and i.x in WRAPPERS))


def order(config, tier, rep):
    """the nesting relation of lock classes has no cycle"""
    prog = program(config)
    an = Analysis(prog, rep)
    for n, isroot in an.roots():
        an.summary(n, tuple(None for _ in prog.mod.funcs[n].args))
    edges = {}
    for (n, sp), c in an.memo.items():
        rep.count("function contexts analysed")
        rep.count("lock operations on paths", c.ops)
        for (a, b), (ins, via) in c.order.items():
            if "?" in (a, b):
                continue
            a, b = a.lstrip("*"), b.lstrip("*")
            edges.setdefault((a, b), "%s() takes %s at %s%s while holding %s" % (
                n, b, ins.where(), " through %s()" % via if via else "", a))
    rep.count("nesting edges", len(edges))
    succ = {}
    for a, b in edges:
        succ.setdefault(a, set()).add(b)
    for (a, b), w in sorted(edges.items()):
        # a path b ->* a closes a cycle
        seen, todo, par = {b}, [b], {}
        while todo:
            x = todo.pop(0)
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    par[y] = x
                    todo.append(y)
        if a in seen:
            cyc, x = [a], a
            while x != b:
                x = par[x]
                cyc.append(x)
            cyc = cyc[::-1]
            msg = "; ".join([w] + [edges[(cyc[i], cyc[i + 1])] for i in range(len(cyc) - 1)])
            rep.violation("cycle/" + "/".join(sorted(set([a, b] + cyc))), "locks are nested in opposite orders: " + msg)
    for (a, b), w in edges.items():
        rep.samples.append(w)
