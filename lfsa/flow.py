"""Path-sensitive forward dataflow over the IR ("property simulation").

The abstract state of a path is: the values of SSA names that the syntax alone does not determine (phis, loads), a
memory of what the last store to / load from an address yielded, a set of facts (intervals of expressions, orderings of
pairs of expressions, orderings of pairs of tags) learned from the branches taken, and the property state of the client.
States that reach a block with the same property state are merged by intersection when there are more than K of them;
nothing is handed to a solver: a branch is pruned only when a recorded fact contradicts it syntactically.
"""
import heapq
import itertools
from functools import lru_cache
from . import ir
from .build import AnalysisBroken

LT, EQ, GT = 1, 2, 4
ANY = 7
SWAP = {0: 0, LT: GT, EQ: EQ, GT: LT, LT | EQ: GT | EQ, GT | EQ: LT | EQ, LT | GT: LT | GT, ANY: ANY}
PRED = {"eq": EQ, "ne": LT | GT, "slt": LT, "sle": LT | EQ, "sgt": GT, "sge": GT | EQ,
        "ult": LT, "ule": LT | EQ, "ugt": GT, "uge": GT | EQ}
INF = 1 << 70
PURE = {"lf_tag_add", "lf_time_add", "lf_delay_tag", "lf_delay_strict", "lf_tag_subtract", "lf_time_subtract",
        "lf_tag_latest_earliest", "htons", "ntohs", "htonl", "ntohl", "addr_is_const"}
ALLOCS = {"malloc", "calloc", "strdup", "__strdup"}
# external functions that write only through their pointer arguments, or nothing the engine tracks
QUIET_PREFIX = ("lf_print", "tracepoint_", "call_tracepoint", "lf_tracing_tracepoint", "llvm.dbg", "llvm.lifetime", "llvm.va_")
_ = AnalysisBroken


@lru_cache(None)
def atoms(e):
    """ids of the opaque values in an expression"""
    if not isinstance(e, tuple) or not e:
        return frozenset()
    if e[0] == "v":
        return frozenset((e[1],))
    if e[0] in ("c", "@", "arg", "al", "undef", "f", "str"):
        return frozenset()
    r = frozenset()
    for x in e[1:]:
        if isinstance(x, tuple):
            r |= atoms(x)
    return r


@lru_cache(None)
def depth(e):
    if not isinstance(e, tuple) or not e or e[0] in ("c", "@", "arg", "al", "v", "undef"):
        return 1
    return 1 + max([depth(x) for x in e[1:] if isinstance(x, tuple)] or [0])


@lru_cache(None)
def root(e):
    while e[0] in ("+", "ix"):
        e = e[1]
    return e


def plus(x, n):
    if n == 0:
        return x
    if x[0] == "c":
        return ("c", x[1] + n)
    if x[0] == "+":
        return plus(x[1], x[2] + n)
    return ("+", x, n)


def show(e, prog=None, fn=None):
    """expression as text, for reports"""
    k = e[0]
    if k == "c":
        return str(e[1])
    if k == "@":
        return e[1]
    if k == "arg":
        return e[1]
    if k == "v":
        if prog is not None:
            return prog.describe(e[1])
        return "v%s" % (e[1],)
    if k == "+":
        return "%s%+d" % (show(e[1], prog), e[2])
    if k == "ix":
        return "%s[%s]" % (show(e[1], prog), show(e[2], prog))
    return "(%s)" % " ".join(show(x, prog) if isinstance(x, tuple) else str(x) for x in e)


class Program:
    def __init__(self, mod):
        self.mod = mod
        self._pi = {}
        self._mods = None
        self._cg = None
        self._atomins = {}
        self._live = {}
        self._loops = {}
        self._rpo = {}

    # -- what an opaque value is ---------------------------------------------------------------------------------
    def atom_ins(self, aid):
        if not self._atomins:
            for f in self.mod.funcs.values():
                for i in f.instrs():
                    self._atomins[i.id] = i
        if isinstance(aid, tuple):
            aid = aid[1]
        return self._atomins.get(aid)

    def describe(self, aid):
        i = self.atom_ins(aid)
        if i is None:
            return "v%s" % (aid,)
        if i.op == "call":
            return "%s()" % (i.x or "indirect call")
        if i.op == "load":
            p = self.access(i)[0]
            return ".".join(x[1] if x[0] != "*" else "*" + x[-1] for x in p) if p else "*" + (i.res or "")
        return i.res or i.op

    # -- static pointer information ------------------------------------------------------------------------------
    def pinfo(self, fn, op):
        """(access path, pointee type) of a pointer operand"""
        if op[0] == "@":
            g = self.mod.globals.get(op[1])
            return ((("@", op[1]),), g["type"] if g else None)
        if op[0] == "cgep":
            base = self.pinfo(fn, op[2][0])
            return self._gep(base, op[1], op[2][1:])
        if op[0] != "%":
            return ((), None)
        k = (fn.name, op[1])
        r = self._pi.get(k)
        if r is None:
            self._pi[k] = ((), None)       # recursion guard (phi cycles)
            r = self._pi[k] = self._pinfo(fn, op[1])
        return r

    def _hint(self, fn, name):
        h = fn.hints.get(name)
        if h:
            ty = self.mod.mdfield(h[0], "type")
            return self.mod.di_type(ty) if h[1] else self.mod.di_pointee(ty)
        return None

    def _pinfo(self, fn, name):
        d = fn.defs.get(name)
        if d is None:
            t = self._hint(fn, name)
            if name in fn.byval:
                t = fn.byval[name][1]
            return ((), t)
        if d.op == "getelementptr":
            return self._gep(self.pinfo(fn, d.ops[0]), d.x, d.ops[1:])
        if d.op == "alloca":
            return ((), d.x)
        if d.op == "load":
            p, t = self.access(d)
            h = self._hint(fn, name)
            if h is None and p:
                h = self._field_pointee(p[-1], p)
            if h is not None and h[0] in ("s",):
                return ((), h)
            return (((("*",) + p[-1],) if p else ()), h)
        if d.op == "phi":
            rs = {self.pinfo(fn, v) for v, _ in d.x if v[0] != "c"}
            if len(rs) == 1:
                return rs.pop()
            ts = {r[1] for r in rs}
            return ((), ts.pop() if len(ts) == 1 else self._hint(fn, name))
        if d.op == "select":
            rs = {self.pinfo(fn, v) for v in d.ops[1:]}
            if len(rs) == 1:
                return rs.pop()
        if d.op == "call":
            h = self._hint(fn, name)
            if h is None and d.x in self.mod.funcs:
                g = self.mod.funcs[d.x]
                a = self.mod.arg_di(g)
                if a and a[0] != "null":
                    h = self.mod.di_pointee(a[0])
            return ((), h)
        return ((), self._hint(fn, name))

    def _field_pointee(self, step, path):
        if step[0] in ("@", "*"):
            if step[0] == "@" and len(path) == 1:
                g = self.mod.globals.get(step[1])
                if g and g["dbg"]:
                    v = self.mod.mdfield(g["dbg"], "var")
                    return self.mod.di_pointee(self.mod.mdfield(v, "type"))
            return None
        for size, fl in self.mod.struct_fields(step[0]):
            for nm, _s, ref in fl.values():
                if nm == step[1]:
                    t = self.mod.di_pointee(ref)
                    if t is None:
                        # array of pointers or pointer to pointer
                        return None
                    return t
        return None

    def descend(self, t, off):
        """path of field steps to the scalar/aggregate at byte offset off of type t"""
        steps = []
        while isinstance(t, tuple):
            if t[0] in ("s", "lit"):
                size, _, offs = self.mod.types.layout(t)
                fs = self.mod.types.fields(t)
                k = None
                for i, o in enumerate(offs or ()):
                    if o <= off:
                        k = i
                if k is None:
                    break
                if t[0] == "s":
                    steps.append(self.mod.field_name(t, k))
                off -= offs[k]
                t = fs[k]
                if off == 0 and not (isinstance(t, tuple) and t[0] in ("s", "lit", "arr")):
                    break
                if off == 0:
                    break
            elif t[0] == "arr":
                s = self.mod.types.layout(t[2])[0] or 1
                off %= s
                t = t[2]
            else:
                break
        return tuple(steps), t

    def _gep(self, base, srcty, idx):
        bp, bt = base
        if srcty == ("i", 8) and len(idx) == 1:
            if idx[0][0] == "c" and isinstance(bt, tuple) and bt[0] in ("s", "lit", "arr"):
                st, t = self.descend(bt, idx[0][1])
                return (bp + st, t)
            if bp:
                return (bp, bt)
            return ((), ("i", 8))
        if not (isinstance(srcty, tuple) and srcty[0] in ("s", "lit", "arr")):
            return (bp, srcty)
        path = bp
        if srcty[0] == "lit" and isinstance(bt, tuple) and bt[0] == "s" and len(idx) == 2 and idx[1][0] == "c":
            # a small aggregate passed in registers
            offs = self.mod.types.layout(srcty)[2]
            if idx[1][1] < len(offs):
                st, t = self.descend(bt, offs[idx[1][1]])
                return (bp + st, t)
        if bt is not None and bt != srcty and bp:
            # the source type may be the first member of bt (or vice versa)
            t, steps = bt, ()
            while isinstance(t, tuple) and t != srcty and t[0] in ("s", "lit", "arr"):
                if t[0] == "s":
                    fs = self.mod.types.fields(t)
                    if not fs:
                        break
                    steps += (self.mod.field_name(t, 0),)
                    t = fs[0]
                elif t[0] == "arr":
                    t = t[2]
                else:
                    break
            if t == srcty:
                path = bp + steps
            elif isinstance(bt, tuple) and bt[0] == "s" and srcty[0] == "s" and \
                    ir.Module.stem(bt[1]) == ir.Module.stem(srcty[1]):
                pass
            else:
                path = bp if bp and bp[-1][0] in ("*", "@") and not (isinstance(bt, tuple) and bt[0] == "s") else ()
        t = srcty
        for i in idx[1:]:
            if t[0] == "s":
                path = path + (self.mod.field_name(t, i[1]),)
                t = self.mod.types.fields(t)[i[1]]
            elif t[0] == "lit":
                t = t[1][i[1]]
            elif t[0] in ("arr", "vec"):
                t = t[2]
            else:
                break
        return (path, t)

    def scalar_path(self, path, t):
        """descend to the first scalar of an aggregate"""
        for _ in range(10):
            if isinstance(t, tuple) and t[0] == "s":
                fs = self.mod.types.fields(t)
                if not fs:
                    break
                path = path + (self.mod.field_name(t, 0),)
                t = fs[0]
            elif isinstance(t, tuple) and t[0] == "lit" and t[1]:
                t = t[1][0]
            elif isinstance(t, tuple) and t[0] == "arr":
                t = t[2]
            else:
                break
        return path, t

    def access(self, ins):
        """(path, type) of the memory a load / store / atomic accesses"""
        if ins.op == "store":
            p, t = self.pinfo(ins.fn, ins.ops[1])
            ty = ins.tys[0]
        else:
            p, t = self.pinfo(ins.fn, ins.ops[0])
            ty = ins.ty if ins.op != "cmpxchg" else ins.tys[1]
        path, lt = self.scalar_path(p, t)
        return path, ty

    def leaves(self, path, t, lim=60):
        """all scalar paths below an aggregate"""
        out = []

        def go(p, t):
            if len(out) > lim:
                return
            if isinstance(t, tuple) and t[0] == "s":
                for i, f in enumerate(self.mod.types.fields(t)):
                    go(p + (self.mod.field_name(t, i),), f)
            elif isinstance(t, tuple) and t[0] == "lit":
                for f in t[1]:
                    go(p, f)
            elif isinstance(t, tuple) and t[0] == "arr":
                go(p, t[2])
            else:
                out.append(p if p else ("?", t))
        go(path, t)
        return out

    # -- call graph ----------------------------------------------------------------------------------------------
    def callgraph(self):
        """name -> set of callees (direct, plus address-taken functions for indirect calls left out)"""
        if self._cg is None:
            self._cg = {f.name: {i.x for i in f.instrs() if i.op == "call" and i.x and i.x != "asm"}
                        for f in self.mod.funcs.values()}
        return self._cg

    def reach(self, roots):
        cg, seen, todo = self.callgraph(), set(), list(roots)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += list(cg.get(n, ()))
        return seen

    def modset(self, name):
        """the access paths a function (transitively) stores to"""
        if self._mods is None:
            direct = {}
            for f in self.mod.funcs.values():
                s = set()
                for i in f.instrs():
                    if i.op == "store" or i.op in ("cmpxchg", "atomicrmw"):
                        ptr = i.ops[1] if i.op == "store" else i.ops[0]
                        if self._local(f, ptr):
                            continue
                        p, ty = self.access(i)
                        s.add(p if p else ("?", ty))
                    elif i.op == "call" and i.x and i.x.startswith(("llvm.mem", "memcpy", "memset", "memmove")):
                        if self._local(f, i.ops[0]):
                            continue
                        p, t = self.pinfo(f, i.ops[0])
                        s.update(self.leaves(p, t))
                direct[f.name] = s
            cg = self.callgraph()
            # condense by iteration
            full = {n: set(s) for n, s in direct.items()}
            changed = True
            while changed:
                changed = False
                for n in full:
                    for c in cg[n]:
                        if c in full and not full[c] <= full[n]:
                            full[n] |= full[c]
                            changed = True
            self._mods = {}
            for n, s in full.items():
                by = {}
                for p in s:
                    by.setdefault(p[-1] if isinstance(p[-1], tuple) else p, []).append(p)
                self._mods[n] = by
        return self._mods.get(name)

    def _local(self, f, op):
        """does the pointer certainly point into a local of f?"""
        for _ in range(20):
            if op[0] != "%":
                return False
            d = f.defs.get(op[1])
            if d is None:
                return op[1] in f.byval and f.byval[op[1]][0] == "byval"
            if d.op == "alloca":
                return True
            if d.op == "getelementptr":
                op = d.ops[0]
                continue
            return False
        return False

    # -- per-function structure ----------------------------------------------------------------------------------
    def rpo(self, f):
        r = self._rpo.get(f.name)
        if r is None:
            seen, order = set(), []
            st = [(f.entry, iter(f.blocks[f.entry].succ))]
            seen.add(f.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(f.blocks[s].succ)))
                        break
                else:
                    order.append(b)
                    st.pop()
            order.reverse()
            r = self._rpo[f.name] = {b: i for i, b in enumerate(order)}
        return r

    def idom(self, f):
        c = f.cache.get("idom")
        if c is None:
            rpo = self.rpo(f)
            order = sorted(rpo, key=rpo.get)
            idom = {f.entry: f.entry}
            ch = True
            while ch:
                ch = False
                for b in order[1:]:
                    n = None
                    for p in f.blocks[b].pred:
                        if p in idom:
                            if n is None:
                                n = p
                            else:
                                x, y = p, n
                                while x != y:
                                    while rpo[x] > rpo[y]:
                                        x = idom[x]
                                    while rpo[y] > rpo[x]:
                                        y = idom[y]
                                n = x
                    if idom.get(b) != n:
                        idom[b] = n
                        ch = True
            c = f.cache["idom"] = idom
        return c

    def dominates(self, f, a, b):
        idom = self.idom(f)
        while True:
            if a == b:
                return True
            n = idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def loops(self, f):
        """header -> set of blocks of the natural loop; also marks irreducible retreating edges as headers"""
        r = self._loops.get(f.name)
        if r is None:
            rpo = self.rpo(f)
            r = {}
            for b in rpo:
                for s in f.blocks[b].succ:
                    if rpo[s] <= rpo[b]:
                        body = r.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st += [p for p in f.blocks[x].pred if p in rpo]
            self._loops[f.name] = r
        return r

    def live(self, f):
        """block -> frozenset of root SSA names live at entry (after the phis)"""
        r = self._live.get(f.name)
        if r is not None:
            return r
        PUREOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                   "icmp", "trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "getelementptr",
                   "extractvalue", "insertvalue", "select", "freeze"}
        memo = {}

        def roots(op):
            if op[0] == "%":
                n = op[1]
                if n in memo:
                    return memo[n]
                d = f.defs.get(n)
                if d is None:
                    memo[n] = frozenset()
                elif d.op in PUREOPS and (d.op != "select" or d.ty == ("i", 1)):
                    s = frozenset()
                    memo[n] = s
                    for o in d.ops:
                        s |= roots(o)
                    memo[n] = s
                elif d.op == "alloca":
                    memo[n] = frozenset()
                else:
                    memo[n] = frozenset((n,))
                return memo[n]
            if op[0] in ("cgep",):
                return frozenset()
            if op[0] == "agg":
                s = frozenset()
                for _, v in op[1]:
                    s |= roots(v)
                return s
            return frozenset()
        use, df, phiuse = {}, {}, {}
        for b in f.blocks.values():
            u, d = set(), set()
            for i in b.ins:
                if i.op == "phi":
                    for v, pb in i.x:
                        phiuse.setdefault(pb, set()).update(roots(v))
                else:
                    for o in i.ops:
                        u |= roots(o) - d
                if i.res:
                    d.add(i.res)
            use[b.name], df[b.name] = u, d
        lin = {b: set() for b in f.blocks}
        order = sorted(self.rpo(f), key=self.rpo(f).get, reverse=True)
        ch = True
        while ch:
            ch = False
            for b in order:
                out = set(phiuse.get(b, ()))
                for s in f.blocks[b].succ:
                    out |= lin[s] - {i.res for i in f.blocks[s].phis}
                # lin here = live at the start, phis included as defined
                n = use[b] | (out - df[b])
                n |= {i.res for i in f.blocks[b].phis if i.res in out or self._used_in(b, i.res, f, roots)}
                if n != lin[b]:
                    lin[b] = n
                    ch = True
        r = self._live[f.name] = {b: frozenset(x) for b, x in lin.items()}
        return r

    @staticmethod
    def _used_in(b, name, f, roots):
        for i in f.blocks[b].ins:
            if i.op != "phi":
                for o in i.ops:
                    if name in roots(o):
                        return True
        return False


def masked(e):
    """(x, m, s) such that e is (x & m) | s"""
    if e[0] == "bin" and e[1] in ("and", "or") and e[3][0] == "c":
        x, m, s = masked(e[2])
        c = e[3][1]
        return (x, m & c, s & c) if e[1] == "and" else (x, m & ~c, s | c)
    return e, -1, 0


def bits(x, m, s):
    m &= ~s
    all_ = -1
    if x[0] == "zx":
        all_ = (1 << x[2]) - 1
        m &= all_
    if m == 0:
        return ("c", s)
    e = x if m == all_ & ~s or m == all_ else ("bin", "and", x, ("c", m))
    return ("bin", "or", e, ("c", s)) if s else e


def alias(p, q):
    """may two access paths of (possibly) different objects denote the same memory?"""
    if p and p[0] == "?":
        return True if q and q[0] == "?" and q[1] == p[1] else bool(q and q[0] != "?" and q[0][0] == "*")
    if q and q[0] == "?":
        return alias(q, p)
    if not p or not q:
        return True
    n = min(len(p), len(q))
    return p[-n:] == q[-n:]


class St:
    __slots__ = ("env", "mem", "facts", "ps", "trace", "rep")

    def __init__(self, env, mem, facts, ps, trace=None, rep=0):
        self.env, self.mem, self.facts, self.ps, self.trace, self.rep = env, mem, facts, ps, trace, rep

    def copy(self):
        return St(dict(self.env), dict(self.mem), dict(self.facts), self.ps, self.trace, self.rep)

    def path(self, n=40):
        out, t = [], self.trace
        while t is not None and len(out) < n:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Client:
    """hooks of an analysis; every hook may change st.ps"""
    K = 24
    # functions whose call makes everything shared unknown
    HAVOC = frozenset(("pthread_mutex_lock", "pthread_cond_wait", "pthread_cond_timedwait", "lf_mutex_lock",
                       "lf_cond_wait", "lf_clock_cond_timedwait", "_lf_cond_timedwait", "lf_sleep", "pthread_join",
                       "lf_thread_join", "lf_semaphore_wait", "lf_semaphore_acquire", "usleep", "nanosleep",
                       "clock_nanosleep"))
    # fields that never change once a thread may look at them: havoc keeps them
    STABLE = frozenset()
    # do the values that the property state mentions stay known?
    PSLIVE = False
    # only facts of the kinds in PSSTRONG keep the values they mention known; the others go with these values
    PSWEAK = False
    PSSTRONG = ()
    NAMECONST = False   # does a constant that enters a loop get a name, too?
    KEEPENV = False     # do not forget values that are not used any more

    def call(self, e, st, ins, name, args):
        return None

    def store(self, e, st, ins, addr, path, val):
        pass

    def load(self, e, st, ins, addr, path, val):
        pass

    def ret(self, e, st, ins, val):
        pass

    def term(self, e, st, ins):
        pass

    def edge(self, e, st, bb, succ):
        return True

    def reborn(self, e, st, aid):
        """an instruction is executed again: what was known about its value is about the previous one"""

    def rename(self, e, st, sub):
        """values got new names at a loop header: sub maps old expressions to new ones"""


@lru_cache(200000)
def subst(e, sub):
    """expression with the pairs of sub (a tuple of (old, new)) replaced"""
    for a, b in sub:
        if e == a:
            return b
    if not isinstance(e, tuple) or not e or e[0] in ("c", "@", "arg", "al", "v", "undef"):
        return e
    return tuple(subst(x, sub) if isinstance(x, (tuple, frozenset)) else x for x in e) if isinstance(e, tuple) else e


class Engine:
    def __init__(self, prog, fn, client, budget=1500000):
        self.p, self.f, self.c = prog, fn, client
        self.budget = budget
        self.steps = 0
        self.live = prog.live(fn)
        self.loops = prog.loops(fn)
        self.rpo = prog.rpo(fn)
        inl = set()
        for h, body in self.loops.items():
            inl |= body
        self.inloop = inl
        self.merges = 0
        self.visited = set()

    # -- values --------------------------------------------------------------------------------------------------
    def ev(self, st, op):
        k = op[0]
        if k == "%":
            v = st.env.get(op[1])
            if v is not None:
                return v
            d = self.f.defs.get(op[1])
            if d is None:
                return ("arg", op[1])
            return self.evi(st, d)
        if k == "cgep":
            return self.gep(st, op[1], op[2])
        if k == "cbin":
            a, b = self.ev(st, op[2]), self.ev(st, op[3])
            return self.binop(op[1], a, b, None)
        if k == "zero":
            return ("c", 0)
        if k == "agg":
            return ("agg",) + tuple((i, self.ev(st, v)) for i, (_, v) in enumerate(op[1]))
        return op

    def gep(self, st, srcty, ops):
        a = self.ev(st, ops[0])
        t = srcty
        ty = self.p.mod.types
        for n, i in enumerate(ops[1:]):
            iv = self.ev(st, i)
            if n == 0:
                size = ty.layout(t)[0]
            elif isinstance(t, tuple) and t[0] in ("s", "lit"):
                off = ty.layout(t)[2][iv[1]]
                a = plus(a, off)
                t = ty.fields(t)[iv[1]]
                continue
            else:
                t = t[2]
                size = ty.layout(t)[0]
            if iv[0] == "c":
                a = plus(a, iv[1] * size)
            else:
                a = ("ix", a, iv, size)
        return a

    def binop(self, op, a, b, ins):
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            if op == "add":
                return ("c", x + y)
            if op == "sub":
                return ("c", x - y)
            if op == "mul":
                return ("c", x * y)
            if op == "and":
                return ("c", x & y)
            if op == "or":
                return ("c", x | y)
            if op == "xor":
                return ("c", x ^ y)
            if op == "shl" and 0 <= y < 64:
                return ("c", x << y)
        if op == "add":
            if b[0] == "c":
                return plus(a, b[1])
            if a[0] == "c":
                return plus(b, a[1])
        if op == "sub" and b[0] == "c":
            return plus(a, -b[1])
        if op in ("mul", "and", "or", "add", "xor") and a[0] == "c":
            a, b = b, a
        if op == "mul" and b == ("c", 1):
            return a
        if op == "sub" and a == b:
            return ("c", 0)
        if ins is not None and ins.ty == ("i", 1):
            if op == "xor" and b[0] == "c" and b[1] in (1, -1):
                return ("not", a)
            if op in ("and", "or"):
                if b[0] == "c":
                    z = bool(b[1])
                    return (a if z else ("c", 0)) if op == "and" else (("c", 1) if z else a)
                return (op, a, b)
        if op in ("and", "or") and b[0] == "c":
            x, m, s = masked(a)
            return bits(x, m & b[1], s & b[1]) if op == "and" else bits(x, m & ~b[1], s | b[1])
        return ("bin", op, a, b)

    def evi(self, st, d):
        op = d.op
        if op == "getelementptr":
            return self.lim(self.gep(st, d.x, d.ops), d)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            return self.lim(self.binop(op, self.ev(st, d.ops[0]), self.ev(st, d.ops[1]), d), d)
        if op == "icmp":
            return self.lim(("cmp", d.x, self.ev(st, d.ops[0]), self.ev(st, d.ops[1])), d)
        if op in ("sext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            if op == "sext" and d.tys[0] == ("i", 1):
                return ("b2i", self.ev(st, d.ops[0]))
            return self.ev(st, d.ops[0])
        if op == "zext":
            a = self.ev(st, d.ops[0])
            n = d.tys[0][1]
            if a[0] == "c":
                return ("c", a[1] & ((1 << n) - 1))
            if n == 1:
                return ("b2i", a)
            if a[0] == "tr" and a[2] == n:
                x, m, s = masked(a[1])
                if x[0] == "zx" and x[2] <= n:
                    return bits(x, m & (1 << n) - 1, s & (1 << n) - 1)
            return ("zx", a, n) if a[0] != "b2i" else a
        if op == "trunc":
            a = self.ev(st, d.ops[0])
            n = d.ty[1]
            if n == 1:
                if a[0] == "b2i":
                    return a[1]
                if a[0] == "c":
                    return ("c", a[1] & 1)
                return ("cmp", "ne", a, ("c", 0))
            if a[0] == "c":
                v = a[1] & ((1 << n) - 1)
                return ("c", v - (1 << n) if v >> (n - 1) else v)
            if a[0] == "b2i":
                return a
            if a[0] == "zx" and a[2] == n:
                return a[1]
            return ("tr", a, n)
        if op == "alloca":
            return ("al", d.id)
        if op == "select":
            c = self.decide(st, self.ev(st, d.ops[0]))
            if c is not None:
                return self.ev(st, d.ops[1] if c else d.ops[2])
            return self.lim(("sel", self.ev(st, d.ops[0]), self.ev(st, d.ops[1]), self.ev(st, d.ops[2])), d)
        if op == "extractvalue":
            a = self.ev(st, d.ops[0])
            for k in d.x:
                if a[0] == "agg":
                    a = dict(a[1:]).get(k, ("undef",))
                else:
                    a = ("ex", a, k)
            return a
        if op == "insertvalue":
            a = self.ev(st, d.ops[0])
            v = self.ev(st, d.ops[1])
            m = dict(a[1:]) if a[0] == "agg" else {}
            if a[0] not in ("agg", "undef", "zero"):
                for i in range(len(d.ty[1]) if d.ty[0] == "lit" else 4):
                    m[i] = ("ex", a, i)
            m[d.x[0]] = v
            return ("agg",) + tuple(sorted(m.items(), key=lambda kv: kv[0]))
        return ("v", d.id)

    def lim(self, e, d):
        return e if depth(e) <= 9 else ("v", d.id)

    # -- facts ---------------------------------------------------------------------------------------------------
    def iv(self, st, e):
        """(lo, hi, excluded values)"""
        k = e[0]
        if k == "c":
            return (e[1], e[1], frozenset())
        if k == "+":
            lo, hi, ne = self.iv(st, e[1])
            n = e[2]
            return (lo + n if lo > -INF else lo, hi + n if hi < INF else hi, frozenset(x + n for x in ne))
        lo, hi, ne = st.facts.get(("I", e), (-INF, INF, frozenset()))
        if k == "zx":
            l2, h2, n2 = self.iv(st, e[1])
            lo = max(lo, 0)
            hi = min(hi, (1 << e[2]) - 1)
            if l2 >= 0:
                lo, hi, ne = max(lo, l2), min(hi, h2), ne | n2
            elif 0 in n2:
                ne = ne | {0}
            if l2 == h2 and l2 > -INF:
                v = l2 & ((1 << e[2]) - 1)
                return (v, v, frozenset())
        elif k == "b2i":
            lo, hi = max(lo, 0), min(hi, 1)
            d = self.decide(st, e[1])
            if d is not None:
                lo = hi = 1 if d else 0
        elif k == "bin":
            if e[1] == "and" and e[3][0] == "c" and e[3][1] >= 0:
                lo, hi = max(lo, 0), min(hi, e[3][1])
            elif e[1] == "urem" and e[3][0] == "c":
                lo, hi = max(lo, 0), min(hi, e[3][1] - 1)
            elif e[1] in ("srem",) and e[3][0] == "c":
                l2, h2, _n = self.iv(st, e[2])
                if l2 >= 0:
                    lo = max(lo, 0)
                hi = min(hi, abs(e[3][1]) - 1)
            elif e[1] == "add":
                a, b = self.iv(st, e[2]), self.iv(st, e[3])
                if a[0] > -INF and b[0] > -INF:
                    lo = max(lo, a[0] + b[0])
                if a[1] < INF and b[1] < INF:
                    hi = min(hi, a[1] + b[1])
            elif e[1] == "sub":
                a, b = self.iv(st, e[2]), self.iv(st, e[3])
                if a[0] > -INF and b[1] < INF:
                    lo = max(lo, a[0] - b[1])
                if a[1] < INF and b[0] > -INF:
                    hi = min(hi, a[1] - b[0])
            elif e[1] == "mul" and e[3][0] == "c" and e[3][1] > 0:
                a = self.iv(st, e[2])
                if a[0] > -INF:
                    lo = max(lo, a[0] * e[3][1])
                if a[1] < INF:
                    hi = min(hi, a[1] * e[3][1])
        elif k == "@" or k == "al":
            lo, ne = max(lo, 1), ne | {0}
        elif k == "ix":
            if 0 in self.iv(st, e[1])[2]:
                ne = ne | {0}
        elif k == "tc":
            m = self.tmask(st, e[1], e[2])
            if not m & LT:
                lo = max(lo, 0 if m & EQ else 1)
            if not m & GT:
                hi = min(hi, 0 if m & EQ else -1)
            if not m & EQ:
                ne = ne | {0}
        return (lo, hi, ne)

    def tmask(self, st, A, B, deep=True):
        if A == B:
            return EQ
        m = ANY
        ca, cb = A[0][0] == "c" and A[1][0] == "c", B[0][0] == "c" and B[1][0] == "c"
        if ca and cb:
            x, y = (A[0][1], A[1][1] & 0xffffffff), (B[0][1], B[1][1] & 0xffffffff)
            return LT if x < y else EQ if x == y else GT
        # a constant that is the least / greatest tag
        for X, Y, sw in ((A, B, False), (B, A, True)):
            if X[0] == ("c", -(1 << 63)) and X[1][0] == "c" and X[1][1] & 0xffffffff == 0:
                m &= (LT | EQ) if not sw else (GT | EQ)
            if X[0] == ("c", (1 << 63) - 1) and X[1][0] == "c" and X[1][1] & 0xffffffff == 0xffffffff:
                m &= (GT | EQ) if not sw else (LT | EQ)
        f = st.facts.get(("T", A, B))
        if f is not None:
            m &= f
        f = st.facts.get(("T", B, A))
        if f is not None:
            m &= SWAP[f]
        if deep and m not in (LT, EQ, GT):
            for k, v in st.facts.items():
                if k[0] == "T":
                    for X, Y, mm in ((k[1], k[2], v), (k[2], k[1], SWAP[v])):
                        if X == A and Y != B:
                            m &= compose(mm, self.tmask(st, Y, B, False))
        return m

    def tagfact(self, st, A, B, mask):
        m = self.tmask(st, A, B) & mask
        if not m:
            return False
        st.facts.pop(("T", B, A), None)
        st.facts[("T", A, B)] = m
        # the order of two tags bounds the order of their times
        if A[0] is not None and B[0] is not None and A[0] != B[0] and (not m & GT or not m & LT):
            if A[0][0] == "c":
                return self.rel(st, B[0], A[0], (LT if m & GT else 0) | EQ | (GT if m & LT else 0))
            return self.rel(st, A[0], B[0], (LT if m & LT else 0) | EQ | (GT if m & GT else 0))
        return True

    def pmask(self, st, a, b, u=False, deep=True):
        if a == b:
            return EQ
        ra, na = (a[1], a[2]) if a[0] == "+" else (a, 0)
        rb, nb = (b[1], b[2]) if b[0] == "+" else (b, 0)
        if ra == rb and not u:
            return LT if na < nb else EQ if na == nb else GT
        m = ANY
        ia, ib = self.iv(st, a), self.iv(st, b)
        nonneg = ia[0] >= 0 and ib[0] >= 0
        if not u or nonneg:
            if ia[1] < ib[0]:
                m &= LT
            elif ia[1] <= ib[0]:
                m &= LT | EQ
            if ia[0] > ib[1]:
                m &= GT
            elif ia[0] >= ib[1]:
                m &= GT | EQ
        if (ib[0] == ib[1] and ib[0] in ia[2]) or (ia[0] == ia[1] and ia[0] in ib[2]):
            m &= LT | GT
        for ku in ("P", "U"):
            f = st.facts.get((ku, a, b))
            if f is None:
                f = st.facts.get((ku, b, a))
                if f is not None:
                    f = SWAP[f]
            if f is not None:
                if (ku == "U") == u or nonneg:
                    m &= f
                elif not f & EQ:
                    m &= LT | GT
                elif f == EQ:
                    m &= EQ
        # a+n vs b: use the recorded fact of the roots
        if (na or nb) and not u:
            f = self.pmask(st, ra, rb, False, False)
            d = na - nb
            if d > 0 and not f & LT:
                m &= GT
            elif d < 0 and not f & GT:
                m &= LT
            elif d == 1 and f == LT:
                m &= LT | EQ
            elif d == -1 and f == GT:
                m &= GT | EQ
        if deep and m not in (LT, EQ, GT):
            for k, v in st.facts.items():
                if k[0] == "P" and not u:
                    for X, Y, mm in ((k[1], k[2], v), (k[2], k[1], SWAP[v])):
                        if X == a and Y != b:
                            m &= compose(mm, self.pmask(st, Y, b, False, False))
        return m

    def decide(self, st, c):
        k = c[0]
        if k == "c":
            return bool(c[1] & 1)
        if k == "cmp":
            pr, a, b = c[1], c[2], c[3]
            if a[0] == "c" and b[0] != "c":
                a, b = b, a
                pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
                      "ule": "uge", "uge": "ule"}.get(pr, pr)
            if a[0] == "b2i" and b[0] == "c" and pr in ("eq", "ne") and b[1] in (0, 1, -1):
                d = self.decide(st, a[1])
                if d is None:
                    return None
                return (d == (b[1] != 0)) == (pr == "eq")
            if "undef" in (a[0], b[0]):
                return None
            m = self.pmask(st, a, b, pr[0] == "u")
            p = PRED[pr]
            if not m & p:
                return False
            if not m & ~p & ANY:
                return True
            return None
        if k == "not":
            d = self.decide(st, c[1])
            return None if d is None else not d
        if k == "and":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        if k == "or":
            a, b = self.decide(st, c[1]), self.decide(st, c[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        f = st.facts.get(("B", c))
        return f

    def assume(self, st, c, truth):
        """record that boolean c is `truth`; False if that contradicts what is known"""
        d = self.decide(st, c)
        if d is not None:
            return d == truth
        k = c[0]
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k == "and":
            if truth:
                return self.assume(st, c[1], True) and self.assume(st, c[2], True)
            if self.decide(st, c[1]):
                return self.assume(st, c[2], False)
            if self.decide(st, c[2]):
                return self.assume(st, c[1], False)
            return True
        if k == "or":
            if not truth:
                return self.assume(st, c[1], False) and self.assume(st, c[2], False)
            if self.decide(st, c[1]) is False:
                return self.assume(st, c[2], True)
            if self.decide(st, c[2]) is False:
                return self.assume(st, c[1], True)
            return True
        if k == "cmp":
            pr, a, b = c[1], c[2], c[3]
            if a[0] == "c":
                a, b = b, a
                pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
                      "ule": "uge", "uge": "ule"}.get(pr, pr)
            m = PRED[pr] if truth else ANY & ~PRED[pr]
            if a[0] == "b2i" and b[0] == "c" and b[1] in (0, 1, -1) and pr in ("eq", "ne"):
                return self.assume(st, a[1], (m == EQ) == (b[1] != 0))
            if "undef" in (a[0], b[0]):
                return True
            u = pr[0] == "u"
            return self.rel(st, a, b, m, u)
        st.facts[("B", c)] = truth
        return True

    def rel(self, st, a, b, m, u=False):
        if b[0] == "c":
            n = b[1]
            if a[0] == "+":
                a, n = a[1], n - a[2]
            lo, hi, ne = self.iv(st, a)
            if u and not (lo >= 0 and n >= 0):
                if n >= 0 and not m & GT:
                    lo = max(lo, 0)       # unsigned less-or-equal a non-negative constant
                elif m == (LT | GT):
                    pass
                elif m == EQ:
                    pass
                elif n == 0 and m == GT:
                    m = LT | GT
                else:
                    return True
            if not m & GT:
                hi = min(hi, n)
            if not m & LT:
                lo = max(lo, n)
            if not m & EQ:
                ne = ne | {n}
            while lo in ne:
                lo += 1
            while hi in ne:
                hi -= 1
            if lo > hi:
                return False
            ne = frozenset(x for x in ne if lo < x < hi)
            if a[0] == "tc":
                mm = 0
                if lo < 0:
                    mm |= LT
                if lo <= 0 <= hi and 0 not in ne:
                    mm |= EQ
                if hi > 0:
                    mm |= GT
                return self.tagfact(st, a[1], a[2], mm)
            st.facts[("I", a)] = (lo, hi, ne)
            return True
        mm = self.pmask(st, a, b, u) & m
        if not mm:
            return False
        key = ("U" if u and not (self.iv(st, a)[0] >= 0 and self.iv(st, b)[0] >= 0) else "P")
        if st.facts.get((key, b, a)) is not None:
            del st.facts[(key, b, a)]
        st.facts[(key, a, b)] = mm
        if mm == EQ:
            ia, ib = self.iv(st, a), self.iv(st, b)
            lo, hi, ne = max(ia[0], ib[0]), min(ia[1], ib[1]), ia[2] | ib[2]
            if lo > hi or (lo == hi and lo in ne):
                return False
            if lo > -INF or hi < INF or ne:
                for x in (a, b):
                    if x[0] not in ("+", "c"):
                        st.facts[("I", x)] = (lo, hi, ne)
        elif not u or key == "P":
            ia, ib = self.iv(st, a), self.iv(st, b)
            if not mm & GT and ib[1] < INF:
                if not self.rel(st, a, ("c", ib[1]), LT | (mm & EQ)):
                    return False
            if not mm & LT and ib[0] > -INF:
                if not self.rel(st, a, ("c", ib[0]), GT | (mm & EQ)):
                    return False
            if not mm & GT and ia[0] > -INF and b[0] != "c":
                if not self.rel(st, b, ("c", ia[0]), GT | (mm & EQ)):
                    return False
            if not mm & LT and ia[1] < INF and b[0] != "c":
                if not self.rel(st, b, ("c", ia[1]), LT | (mm & EQ)):
                    return False
        return True

    # -- memory --------------------------------------------------------------------------------------------------
    def killatom(self, st, aid):
        for d in (st.facts, st.mem):
            dead = [k for k in d if aid in atoms(k)]
            if d is st.mem:
                dead += [k for k, v in d.items() if aid in atoms(v[0])]
            for k in dead:
                d.pop(k, None)

    def clobber(self, st, addr, path, size):
        """a store of `size` bytes to addr: forget what may be overwritten"""
        ra = root(addr)
        dead = []
        vague = not path or path[0] == "?"
        stable = self.c.STABLE
        for a, (v, p, s) in st.mem.items():
            rb = root(a)
            if vague and a != addr and p and p[-1] in stable:
                continue
            if ra == rb:
                if a == addr:
                    dead.append(a)
                    continue
                x = a[2] if a[0] == "+" else 0
                y = addr[2] if addr[0] == "+" else 0
                ba = a[1] if a[0] == "+" else a
                bb = addr[1] if addr[0] == "+" else addr
                if ba == bb:
                    if x + s <= y or y + size <= x:
                        continue
                    dead.append(a)
                elif alias(p, path):
                    if ba[0] == "ix" and bb[0] == "ix" and ba[1] == bb[1] and ba[3] == bb[3] and \
                            not self.pmask(st, ba[2], bb[2]) & EQ:
                        continue
                    dead.append(a)
                continue
            if ra[0] == "al" or rb[0] == "al" or (ra[0] == "@" and rb[0] == "@") or self.own(ra) or self.own(rb):
                continue
            if (ra[0] == "v" and rb[0] == "v") and self.distinct(st, ra, rb):
                continue
            if alias(p, path) and not self.differ(st, ra, rb):
                dead.append(a)
        for a in dead:
            del st.mem[a]

    def distinct(self, st, a, b):
        """two base pointers known different, one of them fresh from an allocator"""
        if self.pmask(st, a, b, False, False) & EQ == 0:
            return True
        for x, y in ((a, b), (b, a)):
            i = self.p.atom_ins(x[1]) if x[0] == "v" else None
            if i is not None and i.op == "call" and i.x in ALLOCS and y[0] in ("arg",):
                return True
        return False

    def differ(self, st, a, b):
        """do two objects hold different values at the same place?"""
        if a[0] not in ("v", "arg") or b[0] not in ("v", "arg"):
            return False
        A, B = {}, {}
        for x, (v, p, s) in st.mem.items():
            r, o = (x[1], x[2]) if x[0] == "+" else (x, 0)
            if r == a:
                A[o] = (v, s)
            elif r == b:
                B[o] = (v, s)
        return any(o in B and B[o][1] == s and not self.pmask(st, v, B[o][0], False, False) & EQ for o, (v, s) in A.items())

    def own(self, r):
        """the object a function returns its result in, which nothing else points to"""
        return r[0] == "arg" and r[1] in self.f.noalias

    def killmods(self, st, mods, args):
        dead = []
        stable = self.c.STABLE
        for a, (v, p, s) in st.mem.items():
            r = root(a)
            if p and p[-1] in stable and p[-1] not in mods:
                continue
            if r[0] == "al" or self.own(r):
                if any(root(x) == r for x in args if isinstance(x, tuple) and x):
                    dead.append(a)
                continue
            if p and p[0] == "?":
                if p in mods or any(isinstance(k, tuple) and k and k[0] == "*" for k in mods):
                    dead.append(a)
                continue
            l = mods.get(p[-1]) if p else None
            if l and any(alias(p, q) for q in l):
                dead.append(a)
                continue
            if not p:
                dead.append(a)
        for a in dead:
            del st.mem[a]

    def havoc(self, st):
        stable = self.c.STABLE
        dead = [a for a, (v, p, s) in st.mem.items()
                if root(a)[0] != "al" and not self.own(root(a)) and not (p and p[-1] in stable)]
        for a in dead:
            del st.mem[a]

    def default_call(self, st, ins, name, args):
        """effects of a call the client does not model"""
        if name is None or name == "asm":
            self.havoc(st) if name is None else None
            for a in [a for a in st.mem if root(a)[0] == "al" and any(root(x) == root(a) for x in args if x)]:
                del st.mem[a]
            return
        if name in PURE or name == "lf_tag_compare" or name.startswith(QUIET_PREFIX) or name in ALLOCS:
            return
        if name in self.c.HAVOC:
            self.havoc(st)
        m = self.p.modset(name)
        if m is not None:
            self.killmods(st, m, args)
            return
        # external: writes through its pointer arguments
        if name.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove", "llvm.memset", "memset")):
            return self.memop(st, ins, name, args)
        if name in ("free", "strlen", "strcmp", "strncmp", "memcmp", "printf", "fprintf", "puts", "pthread_mutex_unlock",
                    "pthread_cond_signal", "pthread_cond_broadcast", "close", "shutdown", "getenv", "strtol", "write",
                    "send", "fwrite", "pthread_mutex_init", "htons", "__errno_location"):
            return
        rs = {root(a) for a, t in zip(args, ins.tys) if t == "ptr" and a[0] != "c"}
        for a in [a for a in st.mem if root(a) in rs]:
            del st.mem[a]

    def memop(self, st, ins, name, args):
        dst, n = args[0], args[2]
        path, t = self.p.pinfo(self.f, ins.ops[0])
        size = n[1] if n[0] == "c" else 1 << 40
        src = args[1]
        copies = []
        if n[0] == "c" and "set" not in name:
            for a, (v, p, s) in list(st.mem.items()):
                if root(a) == root(src):
                    ba, x = (a[1], a[2]) if a[0] == "+" else (a, 0)
                    bs, y = (src[1], src[2]) if src[0] == "+" else (src, 0)
                    if ba == bs and 0 <= x - y and x - y + s <= size:
                        copies.append((x - y, v, s))
        lv = self.p.leaves(path, t) if t is not None else [path]
        for p in lv or [path]:
            self.clobber(st, dst, p, size)
        for o, v, s in copies:
            sp, tt = self.p.descend(t, o) if isinstance(t, tuple) else ((), None)
            pp, _t = self.p.scalar_path(path + sp, tt)
            st.mem[plus(dst, o)] = (v, pp, s)
        if n[0] == "c" and "set" not in name and size <= 64 and isinstance(t, tuple) and t[0] in ("s", "lit"):
            # link source and destination fields that are not known yet
            lay = self.p.mod.types.layout(t)
            have = {o for o, _, _ in copies}
            for o, ft in self.flat(t):
                if o not in have and o < size:
                    at = ("v", ("mc", ins.id, o))
                    self.killatom(st, ("mc", ins.id, o)) if ins.bb.name in self.inloop else None
                    sp, tt = self.p.descend(t, o)
                    pp, _t = self.p.scalar_path(path + sp, tt)
                    s = self.p.mod.types.layout(ft)[0]
                    k = self.constload(plus(src, o))
                    if k is not None:
                        st.mem[plus(dst, o)] = (k, pp, s)
                        continue
                    p0, t0 = self.p.pinfo(self.f, ins.ops[1])
                    sp0 = self.p.scalar_path(p0 + sp, tt)[0] if t0 == t else pp
                    st.mem[plus(dst, o)] = (at, pp, s)
                    st.mem[plus(src, o)] = (at, sp0, s)
        return

    def flat(self, t, off=0):
        if isinstance(t, tuple) and t[0] in ("s", "lit"):
            offs = self.p.mod.types.layout(t)[2]
            for o, f in zip(offs, self.p.mod.types.fields(t)):
                yield from self.flat(f, off + o)
        elif isinstance(t, tuple) and t[0] == "arr":
            return
        else:
            yield off, t

    # -- running -------------------------------------------------------------------------------------------------
    def start(self, ps, facts=(), mem=()):
        st = St({}, dict(mem), {}, ps)
        for c, t in facts:
            if not self.assume(st, c, t):
                return None
        return st

    def run(self, states):
        """states: initial states at the entry. Returns the list of (state, ret instruction, value) at the exits."""
        self.exits = []
        self.pending = {}
        heap = []
        entry = self.f.entry
        self.pending[entry] = list(states)
        heapq.heappush(heap, (0, entry))
        inq = {entry}
        self.seen = {}
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            sts = self.pending.pop(b, [])
            sts = self.reduce(b, sts)
            for st in sts:
                self.visited.add(b)
                for s2, succ in self.block(st, self.f.blocks[b]):
                    self.pending.setdefault(succ, []).append(s2)
                    if succ not in inq:
                        inq.add(succ)
                        heapq.heappush(heap, (self.rpo[succ], succ))
            if self.steps > self.budget:
                raise AnalysisBroken("analysis budget exceeded in %s (%s)" % (self.f.name, self.p.mod.config))
        return self.exits

    def key(self, st):
        return (st.ps, frozenset(st.env.items()), frozenset(st.mem.items()), frozenset(st.facts.items()))

    def reduce(self, b, sts):
        """drop duplicates and states already covered, merge when there are too many"""
        out = []
        seen = self.seen.setdefault(b, {})
        for st in sts:
            self.prune(b, st)
            k = self.key(st)
            if k in seen:
                continue
            seen[k] = True
            cov = seen.setdefault(("cov", st.ps), [])
            if any(e == k[1] and m <= k[2] and f <= k[3] for e, m, f in cov):
                continue
            cov.append(k[1:])
            out.append(st)
        K = self.c.K
        by = {}
        for st in out:
            by.setdefault(st.ps, []).append(st)
        res = []
        header = b in self.loops
        for ps, l in by.items():
            n = seen.setdefault(("n", ps), [0, None])
            n[0] += len(l)
            if n[0] > (min(8, K) if header else 4 * K):
                m = l[0]
                for s in ([n[1]] if n[1] else []) + l[1:]:
                    m = self.merge(b, m, s)
                self.prune(b, m)
                if n[1] is not None:
                    a, c = self.key(n[1]), self.key(m)
                    if a == c:
                        continue
                n[1] = m.copy()
                res.append(m)
                continue
            if len(l) > K:
                l = self.compress(b, l, K)
            res += l
        return res

    def compress(self, b, l, K):
        # first merge states that agree on values, then everything
        by = {}
        for s in l:
            by.setdefault((frozenset(s.env.items()), frozenset(s.mem.items())), []).append(s)
        out = []
        for g in by.values():
            m = g[0]
            for s in g[1:]:
                m = self.merge(b, m, s)
            out.append(m)
        if len(out) > K:
            by = {}
            for s in out:
                by.setdefault(frozenset(s.env.items()), []).append(s)
            out = []
            for g in by.values():
                m = g[0]
                for s in g[1:]:
                    m = self.merge(b, m, s)
                out.append(m)
        if len(out) > K:
            m = out[0]
            for s in out[1:]:
                m = self.merge(b, m, s)
            out = [m]
        for m in out:
            self.prune(b, m)
        return out

    def merge(self, b, x, y):
        self.merges += 1
        env, pair = {}, {}
        for k, v in x.env.items():
            w = y.env.get(k)
            if w is None:
                continue
            if w == v:
                env[k] = v
            else:
                n = ("m", self.f.defs[k].id)
                env[k] = pair[(v, w)] = ("v", n)
                if any(n in atoms(v2) for k2, v2 in x.env.items() if k2 != k) or \
                        any(n in atoms(v2) for k2, v2 in y.env.items() if k2 != k):
                    del pair[(v, w)]
        mem = {}
        for a, v in x.mem.items():
            w = y.mem.get(a)
            if w == v:
                mem[a] = v
            elif w is not None and (v[0], w[0]) in pair and w[1:] == v[1:]:
                mem[a] = (pair[(v[0], w[0])],) + v[1:]
        facts = {}
        if pair:
            # orders of tags that the merged values are part of
            for k, v in x.facts.items():
                if k[0] != "T":
                    continue
                opts = [[(z, z)] + [(w, n) for (a, w), n in pair.items() if a == z] for X in k[1:] for z in X]
                if all(len(o) == 1 for o in opts):
                    continue
                for ch in itertools.islice(itertools.product(*opts), 1, 40):
                    m = v | self.tmask(y, (ch[0][0], ch[1][0]), (ch[2][0], ch[3][0]))
                    if m != ANY:
                        facts[("T", (ch[0][1], ch[1][1]), (ch[2][1], ch[3][1]))] = m
        for (a, b2), n in pair.items():
            v, w = self.iv(x, a), self.iv(y, b2)
            lo = v[0] if v[0] == w[0] else (min(v[0], w[0]) if b not in self.loops else
                                            (0 if min(v[0], w[0]) >= 0 else -INF))
            hi = v[1] if v[1] == w[1] else (max(v[1], w[1]) if b not in self.loops else INF)
            ne = frozenset({0}) if lo <= 0 <= hi and all(0 in z[2] or not z[0] <= 0 <= z[1] for z in (v, w)) else frozenset()
            if lo > -INF or hi < INF or ne:
                facts[("I", n)] = (lo, hi, ne)
        for k, v in x.facts.items():
            if k[0] == "I" and k in facts:
                continue
            w = y.facts.get(k)
            if w is None and k[0] in ("T", "P", "U"):
                w = y.facts.get((k[0], k[2], k[1]))
                w = SWAP[w] if w is not None else None
            if w is None and k[0] == "T":
                w = self.tmask(y, k[1], k[2])
            if w is None and k[0] == "P":
                w = self.pmask(y, k[1], k[2])
            if w is None and k[0] == "I":
                w = self.iv(y, k[1])
            if w is None:
                continue
            if w == v:
                facts[k] = v
            elif k[0] == "I":
                lo = v[0] if v[0] == w[0] else (min(v[0], w[0]) if b not in self.loops else
                                                (0 if min(v[0], w[0]) >= 0 else -INF))
                hi = v[1] if v[1] == w[1] else (max(v[1], w[1]) if b not in self.loops else INF)
                ne = (v[2] | {n for n in w[2] if not v[0] <= n <= v[1]}) & \
                     (w[2] | {n for n in v[2] if not w[0] <= n <= w[1]})
                for n in (0,):
                    if (n in v[2] or not v[0] <= n <= v[1]) and (n in w[2] or not w[0] <= n <= w[1]):
                        ne = ne | {n} if lo <= n <= hi else ne
                if lo > -INF or hi < INF or ne:
                    facts[k] = (lo, hi, frozenset(ne))
            elif k[0] in ("T", "P", "U"):
                if v | w != ANY:
                    facts[k] = v | w
        return St(env, mem, facts, x.ps, x.trace, x.rep)

    def prune(self, b, st):
        lv = self.live[b]
        dead = [] if self.c.KEEPENV else [k for k in st.env if k not in lv]
        for k in dead:
            del st.env[k]
        live = set()
        for v in st.env.values():
            live |= atoms(v)
        if isinstance(st.ps, tuple):
            live |= atoms(("ps", st.ps))
        elif self.c.PSLIVE:
            for x in st.ps:
                if not self.c.PSWEAK or x[0] in self.c.PSSTRONG:
                    live |= atoms(("ps", x))
        # memory: addresses must be nameable
        todo = [(a, v) for a, v in st.mem.items()]
        keep, ch = {}, True
        # roots that any later code can reload from: args and globals
        while ch:
            ch = False
            rest = []
            for a, v in todo:
                if atoms(a) <= live:
                    keep[a] = v
                    n = atoms(v[0])
                    if not n <= live:
                        live |= n
                    ch = True
                else:
                    rest.append((a, v))
            todo = rest
        st.mem = keep
        if self.c.PSWEAK:
            st.ps = frozenset(x for x in st.ps if x[0] in self.c.PSSTRONG or atoms(("ps", x)) <= live)
        dead = [k for k in st.facts if not all(atoms(x) <= live for x in k[1:] if isinstance(x, tuple))]
        # what two remaining values owe to a value that is forgotten: a <= v, v <= b gives a <= b
        by = {}
        for k in dead:
            if k[0] == "P" and st.facts[k] != LT | GT:
                for X, Y, m in ((k[1], k[2], st.facts[k]), (k[2], k[1], SWAP[st.facts[k]])):
                    if not atoms(X) <= live and (Y[0] == "c" or atoms(Y) <= live):
                        by.setdefault(X, []).append((Y, m))
        for k in dead:
            del st.facts[k]
        for X, l in by.items():
            for i, (a, m1) in enumerate(l):
                for b, m2 in l[:i]:
                    if a[0] != "c" and b[0] != "c":
                        m = compose(SWAP[m1], m2)
                        if m != ANY and ("P", b, a) not in st.facts:
                            st.facts[("P", a, b)] = st.facts.get(("P", a, b), ANY) & m or m

    def phis(self, st, bb, frm):
        new = {}
        hdr = bb.name in self.loops
        sub = []
        for i in bb.phis:
            v = ("undef",)
            for o, pb in i.x:
                if pb == frm:
                    v = self.ev(st, o)
                    break
            new[i] = v
        for i, v in new.items():
            if hdr and v[0] == "c" and self.c.NAMECONST:
                at = ("v", i.id)
                self.killatom(st, i.id)
                sub.append((v, at))
                st.facts[("I", at)] = (v[1] if v[1] >= 0 else -INF, INF, frozenset())
                new[i] = at
            elif hdr and v[0] not in ("c", "@", "arg", "al"):
                at = ("v", i.id)
                if v != at:
                    # carry the facts about the incoming value over to the new name
                    carry = []
                    for k, fv in st.facts.items():
                        if k[0] == "I" and k[1] == v:
                            carry.append((("I", at), fv))
                        elif k[0] in ("P", "U"):
                            if k[1] == v and k[2] != v and i.id not in atoms(k[2]):
                                carry.append(((k[0], at, k[2]), fv))
                            elif k[2] == v and k[1] != v and i.id not in atoms(k[1]):
                                carry.append(((k[0], k[1], at), fv))
                    iv = self.iv(st, v)
                    tags = [(k, m) for k, m in st.facts.items() if k[0] == "T" and any(v in X for X in k[1:])]
                    if v[0] == "+" and v[2] > 0:
                        # an incremented microstep: later than what the original was later than
                        for k, m in st.facts.items():
                            if k[0] == "T" and k[2][1] == v[1] and not m & GT and k[1][1] != v:
                                tags.append((("T", k[1], (k[2][0], v)), LT))
                            if k[0] == "T" and k[1][1] == v[1] and not m & LT and k[2][1] != v:
                                tags.append((("T", (k[1][0], v), k[2]), GT))
                    held = [(a, m) for a, m in st.mem.items() if m[0] == v and i.id not in atoms(a)]
                    self.killatom(st, i.id)
                    sub.append((v, at))
                    for a, m in held:
                        st.mem[a] = (at, m[1], m[2])
                    for k, m in tags:
                        carry.append((k, m))
                    if iv[0] > -INF or iv[1] < INF or iv[2]:
                        st.facts[("I", at)] = iv
                    for k, fv in carry:
                        st.facts[k] = fv
                new[i] = at
        for i, v in new.items():
            st.env[i.res] = v
        if sub:
            sub = tuple(sub)
            for k, m in [(k, m) for k, m in st.facts.items() if k[0] == "T"]:
                k2 = ("T", subst(k[1], sub), subst(k[2], sub))
                if k2 != k:
                    st.facts[k2] = m
            self.c.rename(self, st, sub)

    def fresh(self, st, ins):
        if ins.bb.name in self.inloop:
            if any(ins.id in atoms(v) for k, v in st.env.items() if k != ins.res):
                self.retire(st, ins)
            self.killatom(st, ins.id)
            self.killatom(st, ("m", ins.id))
            self.c.reborn(self, st, ins.id)
        return ("v", ins.id)

    def retire(self, st, ins):
        """the value from the previous time around is still in use: give it another name"""
        aid, oid = ins.id, ("o", ins.id)
        for k, v in list(st.env.items()):
            if oid in atoms(v):
                m = ("m", self.f.defs[k].id)
                self.killatom(st, m)
                if v == ("v", oid) and self.c.PSLIVE:
                    self.c.rename(self, st, ((v, ("v", m)),))
                st.env[k] = ("v", m)
        self.killatom(st, oid)
        sub = ((("v", aid), ("v", oid)),)
        for k, v in st.env.items():
            if aid in atoms(v):
                st.env[k] = subst(v, sub)
        st.mem = {subst(a, sub): (subst(v[0], sub), v[1], v[2]) for a, v in st.mem.items()}
        st.facts = {(k[0],) + tuple(subst(x, sub) for x in k[1:]): v for k, v in st.facts.items()}
        if self.c.PSLIVE:
            st.ps = frozenset(subst(x, sub) for x in st.ps)

    def block(self, st, bb):
        """run one state through a block; yields (state, successor)"""
        return list(self._block(st.copy(), bb, 0))

    def _block(self, st, bb, i0):
        c = self.c
        for n in range(i0, len(bb.ins)):
            ins = bb.ins[n]
            self.steps += 1
            op = ins.op
            if op == "phi":
                if ins.res not in st.env:
                    st.env[ins.res] = ("v", ins.id)
                continue
            if op == "load":
                addr = self.ev(st, ins.ops[0])
                path, ty = self.p.access(ins)
                size = self.p.mod.types.layout(ty)[0]
                v = self.constload(addr)
                if v is None:
                    m = st.mem.get(addr)
                    if m is not None and m[2] == size and not ins.x:
                        v = m[0]
                    else:
                        v = self.fresh(st, ins)
                        st.mem[addr] = (v, path if path else ("?", ty), size)
                st.env[ins.res] = v
                c.load(self, st, ins, addr, path, v)
            elif op == "store":
                val, addr = self.ev(st, ins.ops[0]), self.ev(st, ins.ops[1])
                path, ty = self.p.access(ins)
                size = self.p.mod.types.layout(ty)[0]
                c.store(self, st, ins, addr, path, val)
                if val[0] == "undef":
                    st.mem.pop(addr, None)         # padding, or a value that does not matter
                else:
                    self.clobber(st, addr, path if path else ("?", ty), size)
                    st.mem[addr] = (val, path if path else ("?", ty), size)
            elif op in ("cmpxchg", "atomicrmw"):
                addr = self.ev(st, ins.ops[0])
                path, ty = self.p.access(ins)
                size = self.p.mod.types.layout(ty)[0]
                c.store(self, st, ins, addr, path, self.ev(st, ins.ops[1]))
                self.clobber(st, addr, path if path else ("?", ty), size)
                st.env[ins.res] = self.fresh(st, ins)
            elif op == "call":
                r = self.docall(st, ins)
                if r is None:
                    return
                if len(r) == 1:
                    st, v = r[0]
                    if ins.res is not None:
                        st.env[ins.res] = v
                    continue
                for s2, v in r:
                    if ins.res is not None:
                        s2.env[ins.res] = v
                    yield from self._block(s2, bb, n + 1)
                return
            elif op == "br":
                yield from self.branch(st, bb, ins)
                return
            elif op == "switch":
                e = self.ev(st, ins.ops[0])
                d, cases = ins.x
                alive = True
                rest = st.copy()
                for val, dest in cases:
                    s2 = st.copy()
                    if self.assume(s2, ("cmp", "eq", e, ("c", val)), True):
                        yield from self.goto(s2, bb, dest, ins, "case %d" % val)
                    if alive and not self.assume(rest, ("cmp", "eq", e, ("c", val)), False):
                        alive = False
                if alive:
                    yield from self.goto(rest, bb, d, ins, "default")
                return
            elif op == "ret":
                v = self.ev(st, ins.ops[0]) if ins.ops else None
                c.ret(self, st, ins, v)
                self.exits.append((st, ins, v))
                return
            elif op == "unreachable":
                return
            elif op == "select" and ins.ty != ("i", 1):
                k = self.ev(st, ins.ops[0])
                d = self.decide(st, k)
                if d is None:
                    s2 = st.copy()
                    if self.assume(s2, k, True):
                        s2.env[ins.res] = self.ev(s2, ins.ops[1])
                        yield from self._block(s2, bb, n + 1)
                    if not self.assume(st, k, False):
                        return
                    d = False
                st.env[ins.res] = self.ev(st, ins.ops[1 if d else 2])
            elif op in ("fence", "va_arg", "alloca"):
                pass
            else:
                # pure: evaluated on demand; an opaque result needs a fresh name
                if op in ("fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "fptosi", "fptoui", "fcmp", "fpext",
                          "fptrunc", "fneg", "frem"):
                    st.env[ins.res] = self.fresh(st, ins)
                elif bb.name in self.inloop:
                    e = self.evi(st, ins)
                    if e == ("v", ins.id):
                        self.killatom(st, ins.id)

    def constload(self, addr):
        base, off = (addr[1], addr[2]) if addr[0] == "+" else (addr, 0)
        if base[0] != "@":
            return None
        g = self.p.mod.globals.get(base[1])
        if not g or not g["const"] or g["init"] is None:
            return None
        v, t = g["init"], g["type"]
        types = self.p.mod.types
        for _ in range(12):
            if v[0] == "c":
                return v if off == 0 else None
            if not isinstance(t, tuple):
                return ("c", 0) if v[0] == "zero" and off == 0 else None
            if t[0] in ("s", "lit"):
                offs, fs = types.layout(t)[2], types.fields(t)
                k = [i for i, o in enumerate(offs) if o <= off]
                if not k:
                    return None
                k = k[-1]
                off -= offs[k]
                t = fs[k]
                if v[0] == "agg":
                    if k >= len(v[1]):
                        return None
                    v = v[1][k][1]
                elif v[0] != "zero":
                    return None
            elif t[0] == "arr":
                size = types.layout(t[2])[0] or 1
                if v[0] == "agg" and off // size < len(v[1]):
                    v = v[1][off // size][1]
                elif v[0] != "zero":
                    return None
                off %= size
                t = t[2]
            else:
                return ("c", 0) if v[0] == "zero" and off == 0 else None
        return None

    def docall(self, st, ins):
        args = [self.ev(st, o) for o in ins.ops]
        name = ins.x
        if name is None and args and args[-1][0] == "@":
            name = args[-1][1]                     # devirtualised
            args = args[:-1]
        if name in ir.NORETURN:
            self.c.call(self, st, ins, name, args)
            self.c.term(self, st, ins)
            return None
        r = self.c.call(self, st, ins, name, args)
        if r is not None:
            return r
        if name == "lf_tag_compare" and len(args) == 4:
            return [(st, ("tc", (args[0], args[1]), (args[2], args[3])))]
        if name in PURE:
            return [(st, self.lim(("call", name) + tuple(args), ins))]
        if name and name.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin", "llvm.abs")):
            return [(st, self.fresh(st, ins))]
        self.default_call(st, ins, name, args)
        return [(st, self.fresh(st, ins) if ins.res is not None else ("undef",))]

    def branch(self, st, bb, ins):
        if len(ins.x) == 1:
            yield from self.goto(st, bb, ins.x[0], None, None)
            return
        c = self.ev(st, ins.ops[0])
        if ins.x[0] == ins.x[1]:
            yield from self.goto(st, bb, ins.x[0], None, None)
            return
        d = self.decide(st, c)
        if d is not False:
            s2 = st.copy() if d is None else st
            if self.assume(s2, c, True):
                yield from self.goto(s2, bb, ins.x[0], ins if d is None else None, "true")
        if d is not True:
            if self.assume(st, c, False):
                yield from self.goto(st, bb, ins.x[1], ins if d is None else None, "false")

    def goto(self, st, bb, succ, ins, what):
        if ins is not None:
            st.trace = (st.trace, (ins.dbg, what))
        if self.c.edge(self, st, bb.name, succ) is False:
            return
        self.phis(st, self.f.blocks[succ], bb.name)
        yield st, succ


def compose(m1, m2):
    """mask of a?c given a?b in m1 and b?c in m2"""
    r = 0
    for x in (LT, EQ, GT):
        if m1 & x:
            for y in (LT, EQ, GT):
                if m2 & y:
                    if x == EQ:
                        r |= y
                    elif y == EQ or y == x:
                        r |= x
                    else:
                        r |= ANY
    return r
