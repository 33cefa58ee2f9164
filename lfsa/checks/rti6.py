"""The least delays of the paths from upstream nodes, and which nodes are in cycles."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from .mode import Mode
from .rti import NODE, nf, Nodes, NOT_CONNECTED, index
from .tags import fieldoff
from .tags3 import FOREVER, isall
from .tagutil import tagat, order
from . import each

ROOT = "update_min_delays_upstream"
TIME, MS = (("tag_t", "time"),), (("tag_t", "microstep"),)
ZERO = (("c", 0), ("c", 0))
MAXT = (FOREVER, ("c", -1))
ZDC, CYCLE = 1, 2


def strip(v):
    while v[0] in ("zx", "tr", "sx"):
        v = v[1]
    return v


def elem(addr):
    """(array, index) of an element of an array of tags"""
    if addr[0] == "ix" and addr[3] == 16:
        return addr[1], strip(addr[2])
    if addr[0] == "+" and addr[1][0] == "ix":
        return (None, None) if addr[2] % 16 else (addr[1][1], strip(flow.plus(addr[1][2], addr[2] // 16)))
    if addr[0] == "+":
        return (None, None) if addr[2] % 16 else (addr[1], ("c", addr[2] // 16))
    return addr, ("c", 0)


class Common(Nodes):
    rule = "paths"
    K = 48
    KINDS = {"idx", "node"}

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def owner(self, st, ptr, field):
        """the node whose field holds this pointer or number"""
        off = fieldoff(self.prog, None, NODE, field)
        return {flow.plus(a, -off) for a, (v, p, s) in st.mem.items() if v == ptr and p and p[-1] == nf(field)}

    def arrload(self, st, addr, path, val):
        if path == TIME:
            k, (A, i) = 0, elem(addr)
        elif path == MS:
            k, (A, i) = 1, elem(flow.plus(addr, -8))
        else:
            return
        if A is None or A[0] == "@":
            return
        self.drop(st, lambda x: x[0] in ("cur", "sofar") and x[2] == val)
        ups = [x for x in st.ps if x[0] == "idx" and x[1] == i and x[2] == "up"]
        if ups:
            self.add(st, ("cur", k, val, ups[0][3]))
        else:
            own = self.owner(st, i, "id")
            for n in own:
                self.add(st, ("sofar", k, val, n))
            if not own:
                self.add(st, ("cur", k, val, i))

    def latch(self, st):
        self.drop(st, lambda x: x[0] in self.KINDS)


class Walk(Common):
    """the function that follows the connections upstream, recursively"""
    KINDS = {"idx", "node", "cur", "owed", "stored", "cyc", "zero", "neg", "notless", "inc", "old", "delay"}

    def before(self, e):
        self.loops = set()
        for h, body in e.loops.items():
            if any(i.op == "load" and (self.prog.access(i)[0] or (None,))[-1] == ("*", NODE, "upstream_delay") for b in body for i in self.fn.blocks[b].ins):
                self.loops.add(h)
        self.loops = {h for h in self.loops if not any(h != g and h in e.loops[g] for g in self.loops)}

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        self.arrload(st, addr, path, val)
        if path and path[-1] == ("*", NODE, "upstream_delay"):
            size = self.prog.mod.types.layout(ins.ty)[0]
            self.drop(st, lambda x: x[0] == "delay" and x[1] == val)
            self.add(st, ("delay", val, index(self.prog, addr, path, size)))
        if path and path[-1] == nf("num_upstream"):
            self.add(st, ("loop",))

    def own(self, st, what):
        """the node whose upstream nodes are examined"""
        out = None
        for a, (v, p, s) in st.mem.items():
            if p and p[-1] == nf(what):
                out = (out or set()) | {flow.plus(a, -fieldoff(self.prog, None, NODE, what))}
        return out or set()

    def valid(self, e, st, T):
        """message if T is not the delay of the connection number i plus that of the path so far; else i"""
        t, m = T
        if t[0] != "ex" or m[0] != "ex" or t[1] != m[1] or t[2] != 0 or m[2] != 1 or t[1][0] != "call" or t[1][1] != "lf_tag_add":
            return None
        d0, d1, s0, s1 = t[1][2:6]
        if d0[0] != "ex" or d0[1][:4] != ("call", "lf_delay_tag") + ZERO or d1 != ("ex", d0[1], 1):
            return None
        i = [x[2] for x in self.get(st, "delay") if x[1] == d0[1][4]]
        X = self.own(st, "upstream_delay")
        if not i or len(X) != 1:
            return None
        X = next(iter(X))
        if (s0, s1) == ZERO and ("first",) in st.ps:
            return i[0]
        if ("sofar", 0, s0, X) in st.ps and ("sofar", 1, s1, X) in st.ps:
            return i[0]
        return None

    def store(self, e, st, ins, addr, path, val):
        if path and path[-1] == nf("flags") and self.get(st, "stored"):
            return
        if not path:
            m = st.mem.get(addr)
            if m and val == flow.plus(m[0], 1) and addr[0] == "arg":
                self.add(st, ("inc",))
            return
        if path not in (TIME, MS) or val[0] == "undef":
            return
        A, u = elem(addr if path == TIME else flow.plus(addr, -8))
        if A is None or A[0] != "arg":
            return
        if path == MS:
            t = st.mem.get(flow.plus(addr, -8))
            if not (t and t[0][0] == "ex" and val == ("ex", t[0][1], 1)):
                self.report("half", "%s() records at %s a delay of a path with a microstep that is not its own" % (self.fn.name, ins.where()), st, ins)
            return
        self.sites += 1
        if val[0] != "ex":
            new = (val, None)
        else:
            new = (val, ("ex", val[1], 1))
        i = self.valid(e, st, new) if new[1] else None
        ups = [x[3] for x in self.get(st, "idx") if x[1] == u]
        old = tagat(e, st, addr)
        msg = None
        if i is None:
            msg = "something other than the delay of a connection plus that of the path from its end"
        elif i not in ups:
            msg = "the delay of a connection for a node other than the one at its beginning"
        elif not self.less(e, st, new, i):
            msg = "the delay of a path without having found that it is less than what is recorded"
        if msg:
            self.report("store", "%s() records at %s %s" % (self.fn.name, ins.where(), msg), st, ins)
            return
        if old[0] is not None:
            if e.pmask(st, old[0], FOREVER) == EQ:
                self.add(st, ("old", True))
            elif not e.pmask(st, old[0], FOREVER) & EQ:
                self.add(st, ("old", False))
        self.add(st, ("owed", i), ("stored", new, i))

    def currents(self, st, i):
        ts = [x[2] for x in self.get(st, "cur") if x[1] == 0 and x[3] == i]
        ms = [x[2] for x in self.get(st, "cur") if x[1] == 1 and x[3] == i]
        return [(t, m) for t in ts for m in ms]

    def less(self, e, st, new, i):
        return any(order(e, st, new, c) == LT for c in self.currents(st, i))

    def call(self, e, st, ins, name, args):
        if name == self.fn.name:
            self.sites += 1
            mine = [("arg", a) for a in self.fn.args]
            nodes = [x for x in self.get(st, "node") if x[1] in args and x[2] == "up"]
            same = sum(a in mine for a in args)
            if nodes and same == len(args) - 1:
                self.drop(st, lambda x: x == ("owed", nodes[0][3]))
        return None

    def edge(self, e, st, bb, succ):
        if ("first",) not in st.ps and not self.get(st, "idx"):
            if any(e.iv(st, ("arg", a))[:2] == (0, 0) for a in self.fn.args):
                self.add(st, ("first",))
        ids = [m[0] for a in self.fn.args for m in [st.mem.get(flow.plus(("arg", a), fieldoff(self.prog, None, NODE, "id")))] if m]
        for x in self.get(st, "owed"):
            us = [y[1] for y in self.get(st, "idx") if y[3] == x[1]]
            ns = [y[1] for y in self.get(st, "node") if y[2] == "up" and y[3] == x[1]]
            z = lambda v: (v, ("zx", v, 16))
            if any(e.pmask(st, p, q) == EQ for a in ids for u in us for p in z(a) for q in z(u)) or \
                    any(e.pmask(st, ("arg", a), n) == EQ for a in self.fn.args for n in ns):
                self.drop(st, lambda y: y == x)
                self.add(st, ("cyc", x[1]))
        for x in self.get(st, "stored"):
            m = order(e, st, x[1], ZERO)
            if m == EQ:
                self.add(st, ("zero", True))
            elif not m & EQ:
                self.add(st, ("zero", False))
            if any(e.iv(st, d[1])[0] >= 0 for d in self.get(st, "delay") if d[2] == x[2]):
                self.add(st, ("neg", False))
        if not self.get(st, "stored"):
            for k in st.facts:
                if k[0] == "T":
                    for T, c in ((k[1], k[2]), (k[2], k[1])):
                        i = self.valid(e, st, T) if T[0] and T[0][0] == "ex" else None
                        if i is not None and c in self.currents(st, i) and not order(e, st, T, c) & LT:
                            self.add(st, ("notless", i))
        if bb is None:
            return True
        for h in self.loops:
            if succ == h and bb in e.loops[h]:
                self.sites += 1
                where = self.fn.blocks[bb].ins[-1].where()
                if self.get(st, "owed"):
                    self.report("deeper", "%s() has found a shorter path but goes on at %s without following it further upstream, though it does not end where it began" % (
                        self.fn.name, where), st, None)
                elif self.get(st, "cyc"):
                    self.cycle(e, st, where)
                elif not self.get(st, "stored") and not self.get(st, "notless"):
                    self.report("miss", "%s() goes on to the next upstream node at %s although the path through this one may be shorter than what is recorded" % (
                        self.fn.name, where), st, None)
                if ("old", True) in st.ps and ("inc",) not in st.ps:
                    self.report("count", "%s() has found a path from another node at %s without having counted it" % (self.fn.name, where), st, None)
                if ("old", False) in st.ps and ("inc",) in st.ps:
                    self.report("count", "%s() counts a node at %s that was counted before" % (self.fn.name, where), st, None)
                self.latch(st)
        return True

    def cycle(self, e, st, where):
        vals = [m[0] for a in self.fn.args for m in [st.mem.get(flow.plus(("arg", a), fieldoff(self.prog, None, NODE, "flags")))] if m and m[1] and m[1][-1] == nf("flags")]
        s = c = 0
        for v in vals:
            s, c = Mode.bits(self, e, st, v)
        if not s & CYCLE:
            self.report("cycle", "%s() has found a cycle but goes on at %s without having marked the node as being in one" % (self.fn.name, where), st, None)
        if s & ZDC:
            if ("zero", True) not in st.ps:
                self.report("zdc", "%s() marks a node as being in a cycle without delays at %s although the cycle may have one" % (self.fn.name, where), st, None)
        elif c & ZDC:
            if ("zero", False) not in st.ps and ("neg", False) not in st.ps:
                self.report("zdc", "%s() marks a node as not being in a cycle without delays at %s although it may be" % (self.fn.name, where), st, None)
        elif ("zero", False) not in st.ps and ("neg", False) not in st.ps:
            # (otherwise the mark stays; it was set only if a path without delays was found, and none is shorter)
            self.report("zdc", "%s() has found a cycle but does not record at %s whether it is without delays" % (self.fn.name, where), st, None)

    def ret(self, e, st, ins, val):
        self.sites += 1
        if ("loop",) not in st.ps:
            ok = False
            for a in self.fn.args:
                s = self.field(e, st, ("arg", a), "state")
                ok |= s is not None and e.iv(st, s)[:2] == (NOT_CONNECTED, NOT_CONNECTED)
            if not ok:
                self.report("return", "%s() returns at %s without having examined what is upstream of a node that is connected" % (self.fn.name, ins.where()), st, ins)

    def bits(self, e, st, v):
        return Mode.bits(self, e, st, v)


class Record(Common):
    """the function that records what was found"""
    KINDS = {"idx", "node", "cur", "fin", "inf", "entry", "holds"}

    def __init__(self, *a, walk=()):
        super().__init__(*a)
        self.walk = walk

    def before(self, e):
        self.loops = {h for h, body in e.loops.items() for b in body for i in self.fn.blocks[b].ins
                      if i.op == "store" and ("minimum_delay_t", "id") in (self.prog.access(i)[0] or ())[-1:] or
                      i.op == "call" and i.x and i.x.startswith("llvm.memcpy")}

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        self.arrload(st, addr, path, val)

    def store(self, e, st, ins, addr, path, val):
        if path and path[-1] == ("minimum_delay_t", "id"):
            # numbers of nodes fit into 16 bits
            self.add(st, ("entry", addr, strip(val)))
            self.sites += 1
        elif path and path[-1] == ("tag_t", "time"):
            A, i = elem(addr)
            if path == TIME and A is not None and A[0] == "al":
                if ("walked",) not in st.ps and val != FOREVER:
                    self.report("init", "%s() starts at %s with a path that is not there" % (self.fn.name, ins.where()), st, ins)
                return
            for x in self.get(st, "cur"):
                if x[1] == 0 and x[2] == val:
                    self.add(st, ("holds", addr, x[3]))

    def call(self, e, st, ins, name, args):
        if name in self.walk:
            self.sites += 1
            self.add(st, ("walked",))
        elif name.startswith("llvm.memcpy") and args[2][0] == "c":
            dst, src, n = args[0], args[1], args[2][1]
            for off in range(0, n - 15, 4):
                a = flow.plus(src, off)
                A, i = elem(a)
                new = [x[2] for x in self.get(st, "holds") if x[1] == a]
                if not new and A is not None and A[0] == "al" and any(y[0] == "cur" and y[3] == i for y in st.ps):
                    new = [i]
                self.drop(st, lambda x: x[0] == "holds" and x[1] == flow.plus(dst, off))
                self.add(st, *[("holds", flow.plus(dst, off), i) for i in new])
        return None

    def edge(self, e, st, bb, succ):
        if ("walked",) in st.ps:
            ts = [x for x in self.get(st, "cur") if x[1] == 0]
            for x in ts:
                ms = [y[2] for y in self.get(st, "cur") if y[1] == 1 and y[3] == x[3]]
                if e.pmask(st, x[2], FOREVER) == LT or any(order(e, st, (x[2], m), MAXT) == LT for m in ms):
                    self.add(st, ("fin", x[3]))
                elif e.pmask(st, x[2], FOREVER) == EQ or any(not order(e, st, (x[2], m), MAXT) & LT for m in ms):
                    self.add(st, ("inf", x[3]))
        for h in self.loops:
            if succ == h and bb in e.loops[h]:
                self.sites += 1
                where = self.fn.blocks[bb].ins[-1].where()
                fin, ent = {x[1] for x in self.get(st, "fin")}, self.get(st, "entry")
                for x in ent:
                    if x[2] not in fin or ("holds", flow.plus(x[1], fieldoff(self.prog, None, "minimum_delay_t", "min_delay")), x[2]) not in st.ps:
                        self.report("entry", "%s() records at %s a delay that is not that of the node it is recorded for, or of a node from which there is no path" % (
                            self.fn.name, where), st, None)
                if not ent and (fin or not self.get(st, "inf")):
                    self.report("lost", "%s() goes on to the next node at %s without having recorded the delay of the path from this one" % (self.fn.name, where), st, None)
                self.latch(st)
        return True

    def ret(self, e, st, ins, val):
        if ("walked",) not in st.ps:
            m = self.field(e, st, ("arg", self.fn.args[0]), "min_delays")
            if m is None or e.iv(st, m)[:2] == (0, 0) or not (e.iv(st, m)[0] > 0 or 0 in e.iv(st, m)[2]):
                self.report("none", "%s() returns at %s without having computed the delays of the paths, and without having found them there" % (
                    self.fn.name, ins.where()), st, ins)


def paths(config, tier, rep):
    prog = program(config)
    root = prog.mod.funcs.get(ROOT)
    if root is None:
        raise AnalysisBroken("anchor lost: %s in %s" % (ROOT, config))
    walk = [f for f in prog.mod.funcs.values() if any(i.op == "call" and i.callee == f.name for i in f.instrs()) and
            any(i.op == "load" and (prog.access(i)[0] or (None,))[-1] == ("*", NODE, "upstream_delay") for i in f.instrs())]
    if not walk:
        raise AnalysisBroken("no recursive function follows the connections upstream in " + config)
    n = 0
    for f in walk:
        n += Walk(prog, f, rep).run().sites
        # a node is left out only where the loop ends
        L = each.Loops(prog, f)
    n += Record(prog, root, rep, walk={f.name for f in walk}).run().sites
    # every element of the array of delays is set at first, and looked at in the end
    L = each.Loops(prog, root)
    for op in ("store", "load"):
        seen = set()
        for i in root.instrs():
            if i.op == op and prog.access(i)[0] == TIME:
                n += each.visit(prog, root, L, i, ("", "path_delays"), each.NODES[(each.C_, "scheduling_nodes")], rep, {}, seen)
    rep.count("steps of the computation of path delays", n)
