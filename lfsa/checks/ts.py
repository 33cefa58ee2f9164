"""Interprocedural typestate: a set of flags per path, functions summarised as flag transformers.

A rule subclasses Typestate and overrides the on_* hooks, which may change st.ps (a frozenset of hashable flags) with
add()/drop().  A function is summarised once per (pointer null-ness of its arguments, constants passed, flags at the
call); a call forks into the distinct (flags, range of the returned value) of the callee's exits.  Recursive calls are
treated as having no effect on the flags."""
from .. import flow
from ..common import *
from . import locks
from .locks import lockclass_op

F0 = frozenset()


def flags(st):
    return st.ps


def add(st, *xs):
    st.ps = st.ps | frozenset(xs)


def drop(st, *xs):
    st.ps = st.ps - frozenset(xs)


class C(flow.Client):
    K = 32
    STABLE = locks.STABLE

    def __init__(self, an, fn, chain):
        self.an, self.prog, self.fn, self.chain = an, an.prog, fn, chain
        self.K = an.K

    def call(self, e, st, ins, name, args):
        an = self.an
        r = an.on_call(self, e, st, ins, name, args)
        if r is not None:
            return r
        if name in an.touch:
            f = self.prog.mod.funcs[name]
            outs = an.summary(name, an.spec(e, st, f, args), st.ps, self.chain + ((self.fn.name, ins),))
            if outs is None:
                return None
            res = []
            for n, (ps, lo, hi, ne) in enumerate(sorted(outs, key=repr)):
                s2 = st.copy() if n < len(outs) - 1 else st
                e.default_call(s2, ins, name, args)
                s2.ps = ps
                v = e.fresh(s2, ins) if ins.res is not None else ("undef",)
                if ins.res is not None:
                    if lo == hi:
                        v = ("c", lo)
                    elif lo > -flow.INF or hi < flow.INF or ne:
                        s2.facts[("I", v)] = (lo, hi, ne)
                an.after_call(self, e, s2, ins, name, args, v)
                res.append((s2, v))
            return res
        return None

    def store(self, e, st, ins, addr, path, val):
        self.an.on_store(self, e, st, ins, addr, path, val)

    def load(self, e, st, ins, addr, path, val):
        self.an.on_load(self, e, st, ins, addr, path, val)

    def ret(self, e, st, ins, val):
        self.an.on_ret(self, e, st, ins, val)

    def edge(self, e, st, bb, succ):
        return self.an.on_edge(self, e, st, bb, succ)


class Typestate:
    K = 32
    client = C
    ENTRY = F0

    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        cg = prog.callgraph()
        self.touch = set()
        for f in prog.mod.funcs.values():
            if any(self.interesting(f, i) for i in f.instrs()):
                self.touch.add(f.name)
        ch = True
        while ch:
            ch = False
            for n in prog.mod.funcs:
                if n not in self.touch and cg[n] & self.touch:
                    self.touch.add(n)
                    ch = True
        self.touch -= self.opaque()
        self.memo, self.active = {}, set()
        self.steps = 0

    def opaque(self):
        """functions whose calls are handled by on_call alone"""
        return locks.WRAPPERS

    # hooks
    def interesting(self, f, i):
        return False

    def on_call(self, c, e, st, ins, name, args):
        return None

    def after_call(self, c, e, st, ins, name, args, val):
        pass

    def on_store(self, c, e, st, ins, addr, path, val):
        pass

    def on_load(self, c, e, st, ins, addr, path, val):
        pass

    def on_ret(self, c, e, st, ins, val):
        pass

    def on_edge(self, c, e, st, bb, succ):
        return True

    def root_exit(self, root, st, ins, val, e):
        pass

    def spec(self, e, st, f, args):
        out = []
        for a, t in zip(args, f.argtys):
            lo, hi, ne = e.iv(st, a)
            if t == "ptr":
                out.append(("nn",) if a[0] in ("@", "al") else ("c", 0) if lo == hi == 0 else
                           ("nn",) if 0 in ne or lo > 0 else None)
            elif lo == hi:
                out.append(("c", lo))
            else:
                out.append(None)
        return tuple(out)

    def summary(self, name, spec, ps, chain=()):
        k = (name, spec, ps)
        if k in self.memo:
            return self.memo[k]
        if k in self.active or len(chain) > 30:
            return None
        self.active.add(k)
        f = self.prog.mod.funcs[name]
        c = self.client(self, f, chain)
        e = flow.Engine(self.prog, f, c)
        facts = []
        for n, s in zip(f.args, spec):
            if s == ("nn",):
                facts.append((("cmp", "eq", ("arg", n), ("c", 0)), False))
            elif s:
                facts.append((("cmp", "eq", ("arg", n), s), True))
        st = e.start(ps, facts)
        outs = set()
        self.exits = None
        for s2, ins, val in e.run([st]):
            lo, hi, ne = -flow.INF, flow.INF, frozenset()
            if val is not None and val[0] != "undef" and f.ret is not None:
                lo, hi, ne = e.iv(s2, val)
                ne = frozenset({0} & set(ne))
            outs.add((s2.ps, lo, hi, ne))
        self.active.discard(k)
        self.memo[k] = outs
        self.lastexits = (e, e.exits)
        return outs

    def roots(self):
        out = []
        at = address_taken(self.prog.mod)
        called = set()
        for s in self.prog.callgraph().values():
            called |= s
        for n in self.prog.mod.funcs:
            if n in self.opaque() or n in SEE_THROUGH or n not in self.touch:
                continue
            if n in at or n not in called:
                out.append(n)
        return out

    def run(self, roots=None):
        for n in roots if roots is not None else self.roots():
            if n not in self.prog.mod.funcs:
                continue
            spec = tuple(None for _ in self.prog.mod.funcs[n].args)
            k = (n, spec, self.ENTRY)
            if k in self.memo:
                del self.memo[k]
            self.summary(n, spec, self.ENTRY)
            e, exits = self.lastexits
            for st, ins, val in exits:
                self.root_exit(n, st, ins, val, e)
        self.rep.count("function contexts analysed", len(self.memo))
        return self


def chain(c):
    return ["%s() calls %s() at %s" % (f, i.x or "?", i.where()) for f, i in c.chain]
