"""The queues that keep their least element at the head: every store into the heap keeps it a heap, and elements know where they are."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from .tags2 import Base
from .tagutil import order as tagorder

Q_ = "pqueue_t"
D, SIZE, AVAIL = (Q_, "d"), (Q_, "size"), (Q_, "avail")
SLOT = ("*",) + D


def bare(v):
    while v[0] in ("sx", "zx", "tr"):
        v = v[1]
    return v


def lin(v, k=1, out=None):
    """linear form of an index; half an index is an atom"""
    out = {} if out is None else out
    v = bare(v)
    if v[0] == "c":
        out[None] = out.get(None, 0) + k * v[1]
    elif v[0] == "+":
        lin(v[1], k, out)
        out[None] = out.get(None, 0) + k * v[2]
    elif v[0] == "bin" and v[1] in ("add", "sub"):
        lin(v[2], k, out)
        lin(v[3], k if v[1] == "add" else -k, out)
    elif v[0] == "bin" and v[1] in ("mul", "shl") and v[3][0] == "c":
        lin(v[2], k * (v[3][1] if v[1] == "mul" else 1 << v[3][1]), out)
    elif v[0] == "bin" and v[1] == "mul" and v[2][0] == "c":
        lin(v[3], k * v[2][1], out)
    elif v[0] == "bin" and v[1] == "or" and v[3][0] == "c" and not any(x % (2 ** v[3][1].bit_length()) for x in lin(v[2]).values()):
        lin(v[2], k, out)
        out[None] = out.get(None, 0) + k * v[3][1]
    elif v[0] == "bin" and (v[1] in ("lshr", "ashr") and v[3] == ("c", 1) or v[1] in ("udiv", "sdiv") and v[3] == ("c", 2)):
        a = ("half",) + tuple(sorted(norm(v[2]).items(), key=repr))
        out[a] = out.get(a, 0) + k
    else:
        out[v] = out.get(v, 0) + k
    return out


def norm(v):
    return {a: k for a, k in lin(v).items() if k}


def same(a, b):
    return norm(a) == norm(b)


def minus(a, b):
    out = lin(b, -1, lin(a))
    return {a: k for a, k in out.items() if k}


def isparent(p, h):
    """is p half of h?"""
    if bare(h)[0] == "c":
        return bare(p) == ("c", bare(h)[1] >> 1)
    return norm(p) == {("half",) + tuple(sorted(norm(h).items(), key=repr)): 1}


def child(c, h):
    """0 or 1 if c is the left or right child of h"""
    d = lin(h, -2, lin(c))
    d = {a: k for a, k in d.items() if k}
    return 0 if not d else 1 if d == {None: 1} else None


def callee(prog, fn, ins):
    if ins.x is None:
        p = prog.pinfo(fn, ins.ops[-1])[0]
        if p and p[-1][-2:-1] == (Q_,):
            return p[-1][-1]
    return None


class Queue(Base):
    """functions called through the fields of the queue do not change it"""
    rule = "heap"
    K = 64
    PSLIVE = True
    NAMECONST = True

    def __init__(self, prog, fn, rep):
        super().__init__(prog, fn, rep)
        self.q = ("arg", fn.args[0])
        self.elem = ("arg", fn.args[1]) if len(fn.args) > 1 else None

    def say(self, key, msg, st, ins):
        self.report(key, "%s() %s" % (self.fn.name, msg % (ins.where() if ins is not None else "the end")), st, ins)

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def has(self, st, *k):
        return k in st.ps

    def one(self, st, k):
        for x in self.get(st, k):
            return x[1]

    def slot(self, a):
        """index of an address within the array"""
        if a[0] == "ix":
            s = self.slot(a[1])
            return flow.plus(a[2], s[1]) if s[0] == "c" else ("bin", "add", s, a[2])
        if a[0] == "+":
            s = self.slot(a[1])
            return flow.plus(s, a[2] // 8)
        return ("c", 0)

    def size(self, st):
        for a, (v, p, s) in st.mem.items():
            if a == self.q and p and p[-1] == SIZE:
                return v

    def pri(self, st, v):
        return self.canon(st, v[2]) if v[:2] == ("call", "getpri") else None

    def canon(self, st, x):
        for y in self.get(st, "is"):
            if y[1] == x:
                return y[2]
        return x

    def rel(self, st, a, b):
        """what is known about how a and b compare, as a mask"""
        if a == b:
            return EQ
        for x in self.get(st, "rel"):
            if x[1:3] == (a, b):
                return x[3]
            if x[1:3] == (b, a):
                return flow.SWAP[x[3]]
        return LT | EQ | GT

    def call(self, e, st, ins, name, args):
        f = callee(self.prog, self.fn, ins)
        if f is None:
            return None
        if f in ("getpri", "getpos"):
            v = ("call", f, args[0])
            if f == "getpos" and args[0] == self.elem:
                self.add(st, ("hole", v))
                e.rel(st, v, ("c", 0), GT)
            return [(st, v)]
        if f == "cmppri":
            a, b = self.pri(st, args[0]), self.pri(st, args[1])
            if a is None or b is None:
                self.say("pri", "compares at %s something that is not the priority of elements", st, ins)
                return [(st, e.fresh(st, ins))]
            out, r = [], self.rel(st, a, b)
            for m, v in ((LT, -1), (EQ, 0), (GT, 1)):
                if r & m:
                    s = st.copy()
                    if a != b:
                        self.drop(s, lambda x: x[0] == "rel" and {x[1], x[2]} == {a, b})
                        self.add(s, ("rel", a, b, m))
                    out.append((s, ("c", v)))
            return out
        if f == "eqelem":
            out = []
            for v in (0, 1):
                s = st.copy()
                self.add(s, ("alike", args[0], args[1], v))
                out.append((s, ("c", v)))
            return out
        if f == "setpos":
            self.sites += 1
            self.setpos(e, st, ins, self.canon(st, args[0]), args[1])
        return [(st, ("c", 0))]

    def setpos(self, e, st, ins, x, k):
        pass

    def reborn(self, e, st, aid):
        self.drop(st, lambda x: aid in flow.atoms(x))

    def idx(self, e, st, T, s):
        """mask of an index compared to a size"""
        m = LT | EQ | GT
        if T[0] == "c":
            m &= e.pmask(st, T, s, True)
        E = minus(T, s)
        for k, f in st.facts.items():
            if k[0] in ("P", "U"):
                D_ = minus(k[1], k[2])
                for sg, f2 in ((1, f), (-1, flow.SWAP[f])):
                    d = differ(E, {x: sg * y for x, y in D_.items()})
                    if d is not None:
                        m &= shift(f2, d)
        return m

    def null(self, e, st, v):
        return e.iv(st, v)[:2] == (0, 0)

    def nonnull(self, e, st, v):
        lo, hi, ne = e.iv(st, v)
        return lo > 0 or hi < 0 or 0 in ne


class Heap(Queue):
    """insert, pop and remove: what is stored where"""

    def before(self, e):
        self.kind = {"pqueue_insert": "insert", "pqueue_pop": "pop", "pqueue_remove": "remove"}[self.fn.name]

    def hole(self, st):
        return self.one(st, "hole")

    def moving(self, st):
        return self.elem if self.kind == "insert" else self.one(st, "m")

    def at(self, st, x):
        return [y[2] for y in self.get(st, "ld") if y[1] == x]

    def load(self, e, st, ins, addr, path, val):
        p = path[-1:] and path[-1]
        if path[-1:] in ((SIZE,), (AVAIL,)) and val[0] != "c":
            e.rel(st, val, ("c", 0), GT)
        if path[-1:] == (SIZE,) and not self.get(st, "size0"):
            self.add(st, ("size0", val))
            if self.kind != "remove":
                self.add(st, ("hole", val if self.kind == "insert" else ("c", 1)))
        if path[-1:] == (SLOT,):
            k = self.slot(addr)
            s0 = self.one(st, "size0")
            if not self.get(st, "stored"):
                if k == ("c", 1):
                    self.add(st, ("head", val))
                if s0 and same(k, flow.plus(s0, -1)):
                    self.add(st, ("m", val))
            h = self.hole(st)
            r = self.role(st, k, h)
            old = [y[1] for y in self.get(st, "ld") if same(y[2], k) or r is not None and self.role(st, y[2], h) == r]
            if old and val not in old:
                self.add(st, ("is", val, self.moving(st) if self.moving(st) in old else old[0]))
            elif not old:
                self.add(st, ("ld", val, k))

    def left(self, e, st, h, n):
        """mask of how the n-th child's index compares to the size"""
        s = self.size(st)
        if s is None:
            return LT | EQ | GT
        T = ("+", ("bin", "shl", h, ("c", 1)), n) if bare(h)[0] != "c" else ("c", 2 * bare(h)[1] + n)
        return self.idx(e, st, T, s)

    def edge(self, e, st, bb, succ):
        h = self.hole(st)
        if h is None or not self.get(st, "size0"):
            return True
        for n in (0, 1):
            m = self.left(e, st, h, n)
            if not m & LT:
                self.add(st, ("none", n))
            elif m == LT:
                self.add(st, ("some", n))
        if e.iv(st, h)[0] > 0 and e.iv(st, ("bin", "shl", h, ("c", 1)))[1] < 2:
            return False
        if any(e.iv(st, z[2])[1] < 2 for z in self.get(st, "child") if z[3] == h):
            return False
        for p in [h] + [x[1] for x in self.get(st, "par")]:
            m = e.pmask(st, p, ("c", 1 if p == h else 0), True)
            if not m & GT:
                self.add(st, ("top",))
            elif m == GT:
                self.add(st, ("notop",))
        if self.kind == "remove":
            s = self.size(st)
            if s is not None and not self.idx(e, st, h, s) & LT:
                self.add(st, ("gone",))
        return True

    def fits(self, e, st, ins, k):
        """insertion: is there room for it?"""
        for a, (v, p, s) in st.mem.items():
            if p and p[-1] == AVAIL:
                if e.pmask(st, k, v, True) == LT or self.has(st, "room", v):
                    return True
        return False

    def store(self, e, st, ins, addr, path, val):
        f = path[-1] if path else None
        if f == AVAIL:
            for x in self.get(st, "bytes"):
                if same(x[1], ("bin", "mul", val, ("c", 8))):
                    # the array was full, so its length was the size
                    old = [m[0] for a, m in st.mem.items() if m[1] and m[1][-1] == AVAIL]
                    for o in old + [self.one(st, "size0") or ("c", 0)]:
                        d = minus(val, o)
                        if d and all(k > 0 for k in d.values()):
                            self.add(st, ("room", val))
        elif f == D:
            if not any(x[1] == val for x in self.get(st, "new")) or e.iv(st, val)[0] <= 0 and 0 not in e.iv(st, val)[2]:
                self.say("array", "replaces at %s the array other than by a larger one that could be allocated", st, ins)
        elif f == SIZE:
            self.sites += 1
            s0 = self.one(st, "size0")
            if s0 is None or self.has(st, "sized") or val != flow.plus(s0, 1 if self.kind == "insert" else -1):
                self.say("size", "sets at %s the size to something else than one " + ("more" if self.kind == "insert" else "less"), st, ins)
            elif self.kind != "insert" and not self.nonempty(e, st):
                self.say("empty", "takes at %s an element from what may be an empty queue", st, ins)
            self.add(st, ("sized",))
        elif f == SLOT:
            self.sites += 1
            self.put(e, st, ins, self.slot(addr), self.canon(st, val))

    def nonempty(self, e, st):
        s0 = self.one(st, "size0")
        return s0 is not None and (1 in e.iv(st, s0)[2] or e.iv(st, s0)[0] > 1)

    def put(self, e, st, ins, k, x):
        h, m = self.hole(st), self.moving(st)
        self.edge(e, st, None, None)
        if h is not None and x == m and not same(k, h) and self.role(st, k, h) is not None:
            # the first half of a swap
            self.add(st, ("pre", k), ("owe", x, k), ("stored",))
            return
        if h is None or m is None or not same(k, h):
            self.say("slot", "overwrites at %s an element that is not the one to be replaced", st, ins)
            return
        if self.kind == "insert" and not self.get(st, "stored") and not self.fits(e, st, ins, k):
            self.say("room", "stores at %s an element beyond the end of the array", st, ins)
        to = h
        if x != m:
            js = [j for j in self.at(st, x) if not same(j, h)]
            for j in js:
                c = self.role(st, j, h)
                if c == -1:
                    if not self.has(st, "notop"):
                        self.say("top", "may move at %s what is not an element of the queue", st, ins)
                    if self.rel(st, x, m) & LT:
                        self.say("up", "moves at %s an element down although it may be less than the one that is placed above it", st, ins)
                    self.dir(st, ins, "up")
                    to = j
                    break
                if c is not None:
                    if not self.has(st, "some", c):
                        self.say("end", "may move at %s what is not an element of the queue", st, ins)
                    if self.rel(st, m, x) & LT:
                        self.say("down", "moves at %s an element up although it may be greater than the one that is placed below it", st, ins)
                    if not self.sibling(st, x, h, c):
                        self.say("child", "moves at %s an element up although the other one below may be less", st, ins)
                    self.dir(st, ins, "down")
                    to = j
                    break
            else:
                self.say("what", "stores at %s an element that is neither the one to be placed nor next to its place", st, ins)
        self.drop(st, lambda y: y[0] == "owe" and same(y[2], k) or y[0] == "ld" and same(y[2], k))
        self.add(st, ("ld", x, k), ("owe", x, k), ("stored",))
        if to is not h:
            # the same index may have a name
            r = self.role(st, to, h)
            for z in [z[1] for z in self.get(st, "par") if r == -1 and z[2] == h] + [z[2] for z in self.get(st, "child") if z[1] == r and z[3] == h]:
                to = z
                self.add(st, ("ld", x, z))
            self.drop(st, lambda y: y[0] in ("rel", "none", "some", "top", "notop", "hole", "put", "par", "child", "gone") or y[0] == "ld" and y[1] not in (x, m))
            pre = any(same(y[1], to) for y in self.get(st, "pre"))
            self.drop(st, lambda y: y[0] == "pre")
            self.add(st, ("hole", to))
            if pre:
                self.add(st, ("put",), ("ld", m, to))
        else:
            self.add(st, ("put",))

    def dir(self, st, ins, d):
        o = "down" if d == "up" else "up"
        if self.has(st, "dir", o) or self.kind == "insert" and d == "down":
            self.say("dir", "moves elements at %s in both directions", st, ins)
        self.add(st, ("dir", d))

    def role(self, st, j, h):
        """is an index that of the parent (-1), of the left (0) or right (1) child?"""
        if h is None:
            return None
        if isparent(j, h) or ("par", j, h) in st.ps:
            return -1
        c = child(j, h)
        if c is None:
            for z in self.get(st, "child"):
                if z[2:] == (j, h):
                    return z[1]
        return c

    def sibling(self, st, x, h, c):
        """is x, the c-th below h, not greater than the other one?"""
        if self.has(st, "none", 1 - c):
            return True
        for y in self.get(st, "ld"):
            if self.role(st, y[2], h) == 1 - c and not self.rel(st, x, y[1]) & GT:
                return True
        return False

    def low(self, st):
        """is what is below not less?"""
        h, m = self.hole(st), self.moving(st)
        if self.has(st, "none", 0) or self.has(st, "dir", "up") or self.kind == "insert":
            return True
        if self.kind == "remove" and not self.has(st, "dir", "down") and not self.rel(st, self.elem, m) & LT:
            return True
        le = {}
        for y in self.get(st, "ld"):
            c = self.role(st, y[2], h)
            if c in (0, 1) and not self.rel(st, m, y[1]) & GT:
                le[c] = y[1]
        return any(c in le and (1 - c in le or self.sibling(st, le[c], h, c)) for c in (0, 1))

    def high(self, st):
        """is what is above not greater?"""
        h, m = self.hole(st), self.moving(st)
        if self.has(st, "top") or self.has(st, "dir", "down") or self.kind == "pop":
            return True
        if self.kind == "remove" and not self.has(st, "dir", "up") and not self.rel(st, self.elem, m) & GT:
            return True
        return any(self.role(st, y[2], h) == -1 and not self.rel(st, y[1], m) & GT for y in self.get(st, "ld"))

    def setpos(self, e, st, ins, x, k):
        o = [y for y in self.get(st, "owe") if y[1] == x and same(y[2], k)]
        if o:
            self.drop(st, lambda y: y in o)
        elif not (x == self.elem and self.kind == "remove" or self.has(st, "head", x)) and not any(y[1] == x and same(y[2], k) for y in self.get(st, "ld")):
            self.say("pos", "tells an element at %s a position that is not its own", st, ins)

    def call(self, e, st, ins, name, args):
        if name in ("realloc", "malloc"):
            v = e.fresh(st, ins)
            self.add(st, ("bytes", args[-1]), ("new", v))
            return [(st, v)]
        return super().call(e, st, ins, name, args)

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        self.sites += 1
        h, m = self.hole(st), self.moving(st)
        if not self.has(st, "sized"):
            if self.get(st, "stored"):
                self.say("size", "changes at %s elements but not the size", st, ins)
            zero = e.iv(st, val)[:2] == (0, 0)
            s0 = self.one(st, "size0")
            if self.kind == "insert":
                if e.iv(st, val)[0] <= 0 and 0 not in e.iv(st, val)[2]:
                    self.say("lost", "returns at %s without having inserted the element", st, ins)
            elif not e.iv(st, self.q)[:2] == (0, 0) and not (s0 and e.iv(st, s0)[1] <= 1):
                self.say("kept", "returns at %s without having removed an element although the queue may not be empty", st, ins)
            elif not zero:
                self.say("value", "returns at %s something although the queue is empty", st, ins)
            return
        if self.kind == "pop":
            if not self.has(st, "head", val):
                self.say("head", "returns at %s something else than what was the head", st, ins)
        elif e.iv(st, val)[:2] != (0, 0):
            self.say("value", "reports at %s a failure although the queue was changed", st, ins)
        if self.get(st, "pre"):
            self.say("hole", "returns at %s with an element twice in the queue", st, ins)
        if not self.has(st, "put"):
            if not self.has(st, "gone") and not (self.kind == "pop" and self.idx(e, st, ("c", 1), self.size(st)) & LT == 0):
                self.say("hole", "returns at %s with an element twice in the queue", st, ins)
            return
        if h is None:
            self.say("slot", "returns at %s although it is not known what was replaced", st, ins)
            return
        if not self.high(st):
            self.say("above", "returns at %s although the element above the one placed may be greater", st, ins)
        if not self.low(st):
            self.say("below", "returns at %s although an element below the one placed may be less", st, ins)
        for y in self.get(st, "owe"):
            self.say("told", "returns at %s without having told an element its position", st, ins)

    def rename(self, e, st, sub):
        h = self.hole(st)
        tmp = {old: ("v", ("tmp", i)) for i, (old, new) in enumerate(sub)}
        back = tuple((tmp[old], new) for old, new in sub)
        one = tuple(tmp.items())
        stale = {a for old, new in sub for a in flow.atoms(new)}
        out = set()
        nh = flow.subst(flow.subst(h, one), back) if h is not None else None
        for old, new in sub:
            c = self.role(st, old, h) if h is not None else None
            if c is not None and old != h:
                out.add(("par", new, nh) if c == -1 else ("child", c, new, nh))
            if old == ("c", 0):
                e.rel(st, new, ("c", 0), EQ)
        for x in list(st.ps):
            if x[0] == "ld" and h is not None and nh != h and x[2] != h:
                c = self.role(st, x[2], h)
                if c is not None and not flow.atoms(x[1]) & stale:
                    j = ("bin", "lshr" if c == -1 else "shl", nh, ("c", 1))
                    out.add(("ld", flow.subst(flow.subst(x[1], one), back), flow.plus(j, max(c, 0))))
                    continue
            y = flow.subst(x, one) if x[0] not in ("size0", "room", "bytes") else x
            if flow.atoms(y) & stale and (x[0] in ("hole", "owe")):
                if x[0] == "owe":
                    self.say("told", "forgets at %s to tell an element its position", st, None)
                continue
            if not flow.atoms(y) & stale:
                out.add(flow.subst(y, back))
        for x in out:
            if x[0] in ("hole", "par") and x[1][0] != "c":
                e.rel(st, x[1], ("c", 0), GT if x[0] == "hole" else EQ | GT)
        st.ps = frozenset(out)


def differ(E, F):
    """the constant by which two linear forms differ, if nothing else does"""
    for a in set(E) | set(F):
        if a is not None and E.get(a, 0) != F.get(a, 0):
            return None
    return E.get(None, 0) - F.get(None, 0)


def shift(f, d):
    """mask of x + d, given the mask of x"""
    if d == 0:
        return f
    m = LT | EQ | GT
    if d > 0:
        if not f & LT:
            m &= GT             # x >= 0
        elif not f & (LT | EQ):
            m &= GT
    else:
        if not f & GT:
            m &= LT
    if d == 1 and f == LT:
        m &= LT | EQ
    if d == -1 and f == GT:
        m &= GT | EQ
    return m


class Search(Queue):
    """search(queue, element, position) below a position of the heap"""
    rule = "search"

    def __init__(self, prog, fn, rep, alike):
        super().__init__(prog, fn, rep)
        self.alike = alike
        self.pos = ("arg", fn.args[2])

    def load(self, e, st, ins, addr, path, val):
        if path[-1:] == (SIZE,) and val[0] != "c":
            e.rel(st, val, ("c", 0), GT)
        if path[-1:] == (SLOT,):
            self.add(st, ("ld", val, self.slot(addr)))
            self.sites += 1
            s = self.size(st)
            if not (s and self.idx(e, st, self.slot(addr), s) == LT):
                self.say("end", "looks at %s at what may not be an element of the queue", st, ins)

    def edge(self, e, st, bb, succ):
        s = self.size(st)
        if s:
            for n, T in ((None, self.pos), (0, ("bin", "shl", self.pos, ("c", 1))), (1, ("+", ("bin", "shl", self.pos, ("c", 1)), 1))):
                if not self.idx(e, st, T, s) & LT:
                    self.add(st, ("none", n))
        return True

    def call(self, e, st, ins, name, args):
        if name == self.fn.name:
            self.sites += 1
            n = child(args[2], self.pos)
            if args[:2] != [self.q, self.elem] or n is None:
                self.say("below", "searches at %s something else than below the element", st, ins)
            s = st.copy()
            self.add(s, ("none", n))
            v = e.fresh(st, ins)
            if not e.rel(st, v, ("c", 0), LT | GT):
                return [(s, ("c", 0))]
            self.add(st, ("found", v))
            return [(st, v), (s, ("c", 0))]
        return super().call(e, st, ins, name, args)

    def ret(self, e, st, ins, val):
        self.sites += 1
        self.edge(e, st, None, None)
        xs = [y[1] for y in self.get(st, "ld") if same(y[2], self.pos)]
        if self.has(st, "found", val):
            return
        if not self.null(e, st, val):
            if val not in xs or self.rel(st, val, self.elem) != EQ or self.alike and not any(y[3] and {y[1], y[2]} == {val, self.elem} for y in self.get(st, "alike")):
                self.say("match", "returns at %s what may not be what is searched", st, ins)
            return
        if self.null(e, st, self.q) or self.has(st, "none", None) or any(self.null(e, st, x) or self.rel(st, x, self.elem) == GT for x in xs):
            return
        if any(not self.rel(st, x, self.elem) & EQ or self.alike and any(not y[3] and {y[1], y[2]} == {x, self.elem} for y in self.get(st, "alike")) for x in xs) \
                and self.has(st, "none", 0) and self.has(st, "none", 1):
            return
        self.say("miss", "finds nothing at %s although not everything was searched that may match", st, ins)


class Api(Queue):
    """functions that look at a queue, or at the queue through those that do"""
    rule = "queue"

    def __init__(self, prog, fn, rep, spec):
        super().__init__(prog, fn, rep)
        self.spec = spec

    def load(self, e, st, ins, addr, path, val):
        if path[-1:] == (SIZE,) and val[0] != "c":
            e.rel(st, val, ("c", 0), GT)

    def call(self, e, st, ins, name, args):
        if callee(self.prog, self.fn, ins) is None and name:
            if name in ("free", "lf_tag_compare") or "print" in name:
                return None
            if name in ("malloc", "calloc"):
                v = e.fresh(st, ins)
                self.add(st, ("new", v, args[-1]))
                return [(st, v)]
            if name in TAKES and ("done", name) in st.ps:
                self.add(st, ("twice",))
            mem = frozenset((a, m[0]) for a, m in st.mem.items() if a[0] == "al" or a[0] == "+" and a[1][0] == "al" or any(flow.root(a) == y[1] for y in self.get(st, "new")))
            v = e.fresh(st, ins)
            self.add(st, ("res", name, tuple(args), v, mem), ("done", name))
            return [(st, v)]
        return super().call(e, st, ins, name, args)

    def ret(self, e, st, ins, val):
        self.sites += 1
        if self.spec(self, e, st, val) is False or self.has(st, "twice"):
            self.say("what", "returns at %s something else than what it is meant to", st, ins)


TAKES = {"pqueue_pop", "pqueue_insert", "pqueue_remove", "pqueue_tag_pop", "pqueue_tag_insert", "pqueue_tag_insert_tag", "pqueue_tag_remove"}


def args(c):
    return tuple(("arg", a) for a in c.fn.args)


def is_size(c, e, st, val):
    s = c.size(st)
    return c.null(e, st, val) if c.null(e, st, c.q) else bool(s) and same(val, flow.plus(s, -1))


def is_head(c, e, st, val):
    s = c.size(st)
    if c.null(e, st, val):
        return c.null(e, st, c.q) or bool(s) and e.iv(st, s)[1] <= 1
    return bool(s) and e.iv(st, flow.plus(s, -1))[0] > 0 and any(m[0] == val and m[1] and m[1][-1] == SLOT and c.slot(a) == ("c", 1) for a, m in st.mem.items())


def is_new(c, e, st, val):
    if c.null(e, st, val):
        return
    f = {m[1][-1][1]: m[0] for a, m in st.mem.items() if flow.root(a) == val and m[1] and m[1][-1][0] == Q_}
    a = args(c)
    for k, i in (("cmppri", 1), ("getpri", 2), ("getpos", 3), ("setpos", 4)):
        if f.get(k) != a[i]:
            return False
    d = f.get("d")
    return f.get("size") == ("c", 1) and any(y[1] == d and same(y[2], ("bin", "mul", f.get("avail", ("undef",)), ("c", 8))) for y in c.get(st, "new"))


def forward(base, *extra):
    def spec(c, e, st, val):
        rs = [y for y in c.get(st, "res") if y[1] == base]
        return len(rs) == 1 and rs[0][2] == args(c) + extra and (val is None or val == rs[0][3])
    return spec


def tag_of(base):
    def spec(c, e, st, val):
        rs = [y for y in c.get(st, "res") if y[1] == base and y[2] == args(c)]
        if len(rs) != 1 or val[0] != "agg":
            return False
        v, t = rs[0][3], (val[1][1], val[2][1])
        if c.null(e, st, v):
            return t == (("c", (1 << 63) - 1), ("c", -1)) or t == (("c", (1 << 63) - 1), ("c", 0xffffffff))
        return c.has(st, "tag", v, 0, t[0]) and c.has(st, "tag", v, 8, t[1])
    return spec


def holds(y, base, tag):
    """does the element have the tag when it is passed on?"""
    mem = dict(y[4])
    return mem.get(base) == tag[0] and mem.get(flow.plus(base, 8)) == tag[1]


def find_tag(c, e, st, val):
    a = args(c)
    rs = [y for y in c.get(st, "res") if y[1] == "pqueue_find_same_priority"]
    return len(rs) == 1 and val == rs[0][3] and rs[0][2][0] == a[0] and holds(rs[0], rs[0][2][1], a[1:3])


def insert_tag(c, e, st, val):
    a = args(c)
    rs = [y for y in c.get(st, "res") if y[1] in ("pqueue_tag_insert", "pqueue_insert")]
    return len(rs) == 1 and val == rs[0][3] and rs[0][2][0] == a[0] and any(n[1] == rs[0][2][1] for n in c.get(st, "new")) and holds(rs[0], rs[0][2][1], a[1:3])


def insert_new(c, e, st, val):
    a = args(c)
    fs = [y for y in c.get(st, "res") if y[1] in ("pqueue_tag_find_with_tag", "pqueue_find_same_priority")]
    rs = [y for y in c.get(st, "res") if y[1] == "pqueue_tag_insert_tag"]
    if len(fs) != 1 or fs[0][2] != a:
        return False
    if rs:
        return c.null(e, st, fs[0][3]) and len(rs) == 1 and rs[0][2] == a and val == rs[0][3]
    return c.nonnull(e, st, fs[0][3]) and c.nonnull(e, st, val)


class Tagged(Api):
    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        for y in self.get(st, "res"):
            for o in (0, 8):
                if addr == flow.plus(y[3], o):
                    self.add(st, ("tag", y[3], o, val))


class UpTo(Queue):
    """removes the elements up to a tag, and only these"""
    rule = "upto"

    def call(self, e, st, ins, name, args):
        if name in ("pqueue_tag_peek_tag", "pqueue_tag_pop_tag") and args[0] == self.q:
            self.sites += 1
            if name == "pqueue_tag_pop_tag":
                if not any(self.order(e, st, h) & GT == 0 for h in self.get(st, "head")):
                    self.say("pop", "may remove at %s an element that is later than the tag", st, ins)
                self.drop(st, lambda x: x[0] == "head")
                return [(st, e.fresh(st, ins))]
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] == "head")
            self.add(st, ("head", ("ex", v, 0), ("ex", v, 1)))
            return [(st, v)]
        if name in ("pqueue_tag_peek", "pqueue_tag_pop") and args[0] == self.q:
            self.sites += 1
            v = e.fresh(st, ins)
            if name == "pqueue_tag_pop":
                if not any(self.order(e, st, h) & GT == 0 for h in self.get(st, "head")):
                    self.say("pop", "may remove at %s an element that is later than the tag", st, ins)
                self.drop(st, lambda x: x[0] in ("head", "elem"))
            else:
                self.drop(st, lambda x: x[0] in ("head", "elem"))
                self.add(st, ("elem", v))
            return [(st, v)]
        return super().call(e, st, ins, name, args) if name is None else None

    def load(self, e, st, ins, addr, path, val):
        for y in self.get(st, "elem"):
            m = st.mem.get(y[1]), st.mem.get(flow.plus(y[1], 8))
            if m[0] and m[1]:
                self.add(st, ("head", m[0][0], m[1][0]))

    def order(self, e, st, h):
        return tagorder(e, st, h[1:3], tuple(("arg", a) for a in self.fn.args[1:3]))

    def edge(self, e, st, bb, succ):
        for h in self.get(st, "head"):
            if self.order(e, st, h) == GT:
                self.add(st, ("over",) + h[1:])
            if not tagorder(e, st, h[1:3], (("c", (1 << 63) - 1), ("c", -1))) & LT:
                self.add(st, ("over",) + h[1:])
        return True

    def ret(self, e, st, ins, val):
        self.sites += 1
        self.edge(e, st, None, None)
        if not any(("over",) + h[1:] in st.ps for h in self.get(st, "head")) and not any(self.null(e, st, y[1]) for y in self.get(st, "elem")):
            self.say("left", "returns at %s although there may be an element up to the tag", st, ins)

    def rename(self, e, st, sub):
        out = set()
        stale = {a for old, new in sub for a in flow.atoms(new)}
        tmp = {old: ("v", ("tmp", i)) for i, (old, new) in enumerate(sub)}
        for x in st.ps:
            y = flow.subst(x, tuple(tmp.items()))
            if not flow.atoms(y) & stale:
                out.add(flow.subst(y, tuple((tmp[old], new) for old, new in sub)))
        st.ps = frozenset(out)


def recursive(prog, f):
    """the functions that call themselves among those that are called from f"""
    out, todo, seen = [], [f], set()
    while todo:
        g = todo.pop()
        if g.name in seen:
            continue
        seen.add(g.name)
        for ins in g.instrs():
            if ins.op == "call" and ins.x in prog.mod.funcs and prog.mod.funcs[ins.x].blocks:
                if ins.x == g.name and g not in out:
                    out.append(g)
                todo.append(prog.mod.funcs[ins.x])
    return out


def order(config, tier, rep):
    prog = program(config)
    for n in ("pqueue_insert", "pqueue_pop", "pqueue_remove"):
        rep.count("stores and positions of queue elements on paths", Heap(prog, func(prog, n), rep).run().sites)


def func(prog, n):
    f = prog.mod.funcs.get(n)
    if f is None or not f.blocks:
        raise AnalysisBroken("no " + n)
    return f


class Callback(Base):
    """functions that a queue calls"""
    rule = "callback"
    PSLIVE = True

    def __init__(self, prog, fn, rep):
        super().__init__(prog, fn, rep)
        self.out, self.stores = [], set()

    def store(self, e, st, ins, addr, path, val):
        self.stores.add((addr, bare(val)))
        self.add(st, ("set", addr))

    def load(self, e, st, ins, addr, path, val):
        self.add(st, ("ld", val, addr))

    def ret(self, e, st, ins, val):
        self.sites += 1
        self.out.append((e, st, val))


def evaluate(v, a, b, m):
    """value of a comparison of a and b, if they compare like m"""
    k = v[0]
    if k == "c":
        return v[1]
    if k in ("sx", "zx", "tr"):
        return evaluate(v[1], a, b, m)
    if k == "b2i":
        return evaluate(v[1], a, b, m)
    if k == "cmp":
        x, y = bare(v[2]), bare(v[3])
        if {x, y} != {a, b}:
            return None
        if x == b:
            m = flow.SWAP[m]
        p = v[1]
        t = {"eq": EQ, "ne": LT | GT, "ult": LT, "ule": LT | EQ, "ugt": GT, "uge": GT | EQ}.get(p)
        return None if t is None else int(bool(t & m))
    if k == "+":
        x = evaluate(v[1], a, b, m)
        return None if x is None else x + v[2]
    if k == "bin" and v[1] in ("add", "sub"):
        x, y = evaluate(v[2], a, b, m), evaluate(v[3], a, b, m)
        return None if x is None or y is None else x + y if v[1] == "add" else x - y
    return None


SIGN = {LT: -1, EQ: 0, GT: 1}


def compares(prog, f, rep, tags):
    c = Callback(prog, f, rep).run()
    a, b = ("arg", f.args[0]), ("arg", f.args[1])
    zero = all(v == ("c", 0) for e, st, v in c.out)
    for e, st, v in c.out:
        if zero:
            continue
        ld = {x[2]: x[1] for x in st.ps if x[0] == "ld"}
        A, B = ((ld.get(a), ld.get(flow.plus(a, 8))), (ld.get(b), ld.get(flow.plus(b, 8)))) if tags else (a, b)
        if v[0] == "tc":
            ok = tags and v[1:] == (A, B)
        else:
            if tags:
                m = tagorder(e, st, A, B)
            else:
                m = e.pmask(st, a, b, True)
            ok = all(evaluate(v, a, b, k) == SIGN[k] for k in (LT, EQ, GT) if m & k)
        if not ok:
            rep.violation("callback/order/%s" % f.name, "%s(), by which a queue orders its elements, does not always return -1, 0 or 1 for less, equal and greater" % f.name, trace_text(prog, st))
    return c.sites


def field(prog, f, rep):
    """where does a function get its result from: an offset, or None for the element itself"""
    c = Callback(prog, f, rep).run()
    a, out = ("arg", f.args[0]), set()
    for e, st, v in c.out:
        v = bare(v)
        if v == a:
            out.add(None)
            continue
        l = [x[2] for x in st.ps if x[0] == "ld" and x[1] == v]
        out.update(o for x in l for o in [off(x, a)])
        if not l:
            out.add("?")
    return out, c.sites


def off(x, a):
    return 0 if x == a else x[2] if x[0] == "+" and x[1] == a else "?"


def callbacks(config, tier, rep):
    prog = program(config)
    n, seen = 0, set()
    for f in prog.mod.funcs.values():
        for ins in f.instrs():
            if ins.op == "call" and ins.x in ("pqueue_init", "pqueue_tag_init_customize"):
                fs = [prog.mod.funcs.get(o[1]) if o[0] == "@" else None for o in ins.ops]
                if ins.x == "pqueue_tag_init_customize":
                    fs = [None, fs[1]] + [None] * 3
                    tags = True
                else:
                    tags = False
                if tuple(fs[:5]) in seen or len(fs) < 5:
                    continue
                seen.add(tuple(fs[:5]))
                if fs[2] is not None:
                    pri, k = field(prog, fs[2], rep)
                    n += k
                    tags = pri == {None}
                    if not tags and pri != {prog_offset(prog, "reaction_t", "index")}:
                        rep.violation("callback/priority/%s" % fs[2].name, "%s() returns something else than the priority of an element" % fs[2].name, [ins.where()])
                if fs[1] is not None:
                    n += compares(prog, fs[1], rep, tags)
                if fs[3] is not None and fs[4] is not None:
                    pos, k = field(prog, fs[3], rep)
                    c = Callback(prog, fs[4], rep).run()
                    n += k + c.sites
                    a, v = (("arg", x) for x in fs[4].args[:2])
                    st = {(off(x, a), y == v) for x, y in c.stores}
                    if len(pos) != 1 or st != {(o, True) for o in pos} or pos & {None, "?"} or any(not any(x[0] == "set" for x in s.ps) for _, s, _ in c.out):
                        rep.violation("callback/position/%s" % fs[4].name, "%s() and %s() disagree about where an element keeps its position" % (fs[3].name, fs[4].name), [ins.where()])
    if not n:
        raise AnalysisBroken("no queues")
    rep.count("paths through functions that queues call", n)


def prog_offset(prog, s, f):
    from .tags import fieldoff
    return fieldoff(prog, None, s, f)


def search(config, tier, rep):
    prog = program(config)
    for name, alike in (("pqueue_find_same_priority", False), ("pqueue_find_equal_same_priority", True)):
        f = func(prog, name)
        fs = recursive(prog, f)
        if len(fs) != 1 or len(fs[0].args) != 3:
            raise AnalysisBroken("%s() does not search recursively" % name)
        rep.count("paths through functions of queues", Search(prog, fs[0], rep, alike).run().sites)
        if f is not fs[0]:
            rep.count("paths through functions of queues", Api(prog, f, rep, forward(fs[0].name, ("c", 1))).run().sites)


def api(config, tier, rep):
    prog = program(config)
    for name, spec in (("pqueue_size", is_size), ("pqueue_peek", is_head), ("pqueue_init", is_new),
                       ("pqueue_tag_insert", forward("pqueue_insert")), ("pqueue_tag_peek", forward("pqueue_peek")), ("pqueue_tag_pop", forward("pqueue_pop")),
                       ("pqueue_tag_remove", forward("pqueue_remove")), ("pqueue_tag_size", forward("pqueue_size")),
                       ("pqueue_tag_find_equal_same_tag", forward("pqueue_find_equal_same_priority")),
                       ("pqueue_tag_peek_tag", tag_of("pqueue_tag_peek")), ("pqueue_tag_pop_tag", tag_of("pqueue_tag_pop")),
                       ("pqueue_tag_find_with_tag", find_tag), ("pqueue_tag_insert_tag", insert_tag), ("pqueue_tag_insert_if_no_match", insert_new)):
        rep.count("paths through functions of queues", Tagged(prog, func(prog, name), rep, spec).run().sites)
    rep.count("paths through functions of queues", UpTo(prog, func(prog, "pqueue_tag_remove_up_to"), rep).run().sites)


def queues(config, tier, rep):
    for f in (order, search, callbacks, api):
        f(config, tier, rep)
