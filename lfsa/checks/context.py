"""Lock contexts: for every access, wait, callback, notification ... of interest, the locks held on every path from a
thread's entry point to it.

Built on the lock analysis of locks.py.  A function is summarised once per calling pattern; what it does is recorded
with the locks it holds *relative to its entry* and whether a thread may already have been created, and is re-evaluated
in every caller until it is settled or an entry point is reached."""
from .. import flow
from ..common import *
from . import locks
from .locks import LOCK, UNLOCK, subst, lockclass_op

THREADS = (None, "#threads")
CREATE = {"lf_thread_create", "pthread_create"}


def held(ps):
    out = {}
    for (l, c), n in ps:
        if c[0] != "#":
            out[c] = out.get(c, 0) + n
    return tuple(sorted((c, n) for c, n in out.items() if n))


def combine(a, b):
    out = dict(a)
    for c, n in b:
        out[c] = out.get(c, 0) + n
    return tuple(sorted((c, n) for c, n in out.items() if n))


class Ctx(locks.Locks):
    """subclasses/hooks: an.probe(client, e, st, ins, kind, data) -> iterable of `what` (hashable)"""

    def __init__(self, an, fn):
        super().__init__(an, fn)
        self.events = {}        # (what, relative locks, before threads) -> (ins, st, chain)

    def event(self, what, rel, pre, ins, st, chain=()):
        k = (what, rel, pre)
        if k not in self.events:
            self.events[k] = (ins, st.copy(), chain)

    def pre(self, st):
        return not any(k == THREADS for k, n in st.ps)

    def probe(self, e, st, ins, kind, *data):
        ws = self.an.probe(self, e, st, ins, kind, *data)
        if ws:
            h, p = held(st.ps), self.pre(st)
            for w in ws:
                if not self.an.settled(w, h):
                    self.event(w, h, p, ins, st)

    def call(self, e, st, ins, name, args):
        self.probe(e, st, ins, "call", name, args)
        if (name in CREATE and self.an.counts_as_thread(args)) or name in self.an.creates:
            r = super().call(e, st, ins, name, args)
            self.sub(e, st, ins, name, args)
            if self.pre(st):
                st.ps = locks.adjust(st.ps, THREADS, 1)
            return r
        r = super().call(e, st, ins, name, args)
        self.sub(e, st, ins, name, args)
        return r

    def sub(self, e, st, ins, name, args):
        if name not in self.an.touch:
            return
        f = self.prog.mod.funcs[name]
        s = self.an.summary(name, self.an.spec(e, st, f, args))
        if s is None:
            return
        h, p = held(st.ps), self.pre(st)
        for (w, rel, pr), (i2, s2, ch) in s.events.items():
            full = combine(h, rel)
            if self.an.settled(w, full):
                continue
            if len(ch) < 12:
                self.event(w, full, p and pr, i2, s2, ((self.fn.name, ins),) + ch)

    def store(self, e, st, ins, addr, path, val):
        self.probe(e, st, ins, "store", addr, path, val)

    def load(self, e, st, ins, addr, path, val):
        self.probe(e, st, ins, "load", addr, path, val)

    def ret(self, e, st, ins, val):
        self.probe(e, st, ins, "ret", val)


class Context(locks.Analysis):
    client = Ctx

    def __init__(self, prog, rep, interesting):
        """interesting: names of functions that contain something to probe (their callers are analysed too)"""
        super().__init__(prog, rep)
        cg = prog.callgraph()
        self.touch |= set(interesting) & set(prog.mod.funcs)
        self.creates = {f.name for f in prog.mod.funcs.values() for i in f.instrs() if i.op == "call" and i.x in CREATE
                        and self.counts_as_thread(i.ops)}
        ch = True
        while ch:
            ch = False
            for n in prog.mod.funcs:
                if n not in locks.WRAPPERS and n not in self.touch and cg[n] & self.touch:
                    self.touch.add(n)
                    ch = True
                if n not in self.creates and cg[n] & self.creates:
                    self.creates.add(n)
                    ch = True

    # threads that share the guarded state; None: all
    THREADS = None

    def counts_as_thread(self, args):
        return self.THREADS is None or any(a[0] == "@" and a[1] in self.THREADS for a in args)

    def probe(self, c, e, st, ins, kind, *data):
        return ()

    def settled(self, what, h):
        return False

    def run(self):
        """(root, what, held, before threads, ins, state, call chain) of everything unsettled at an entry point"""
        out = []
        for n, isroot in self.roots():
            spec = tuple(None for _ in self.prog.mod.funcs[n].args)
            s = self.summary(n, spec)
            if isroot:
                for (w, h, p), (i, st, ch) in s.events.items():
                    out.append((n, w, h, p, i, st, ch))
        return out


def chain_text(prog, root, ch):
    return ["%s() calls %s() at %s" % (f, i.x or "?", i.where()) for f, i in ch]
