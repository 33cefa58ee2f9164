"""Numbers received over sockets: those used as indices are bounded, and transfers stay within their buffers."""
from .net import *
from .rti3 import STARTUP, ADMIT, stores_of

EXTRACT = {"extract_uint16", "extract_int32", "extract_uint32", "extract_int64", "extract_uint64", "extract_tag"}
HEADERS = {"extract_header": (1, 2, 3), "extract_timed_header": (1, 2, 3, 4)}
# what the elements of an array are counted by
COUNTS = {("rti_common_t", "scheduling_nodes"): ("rti_common_t", "number_of_scheduling_nodes"),
          ("@", "_lf_action_table"): ("@", "_lf_action_table_size"),
          ("@", "_lf_action_delay_table"): ("@", "_lf_action_table_size"),
          ("@", "_lf_zero_delay_cycle_action_table"): ("@", "_lf_zero_delay_cycle_action_table_size")}
NODES = (("rti_common_t", "scheduling_nodes"), ("rti_common_t", "number_of_scheduling_nodes"))
CVALS = set(COUNTS.values())
NODEFIELDS = {("scheduling_node_t", "upstream"), ("scheduling_node_t", "downstream")}
THREADS = {"lf_thread_create": (1, 2), "pthread_create": (2, 3)}
BUFFERS = READ + WRITE
COMPARE = ("strncmp", "memcmp", "memcpy", "strncpy", "memmove", "bcmp")


def bare(v):
    while v[0] in ("zx", "sx"):
        v = v[1]
    return v


def spell(v, prog, fn):
    """the same number, as the program may have widened it"""
    v = bare(v)
    out = [v]
    ty = None
    if v[0] == "v":
        d = prog.atom_ins(v[1])
        ty = d.ty if d is not None else None
    elif v[0] == "arg":
        ty = fn.argtys[fn.args.index(v[1])]
    elif v[0] == "tr":
        ty = ("i", v[2])
    if isinstance(ty, tuple) and ty[0] == "i" and ty[1] in (8, 16, 32):
        out += [("zx", v, ty[1]), ("sx", v, ty[1])]
    return out


class Bounds(Sock):
    rule = "index"
    K = 12

    def __init__(self, prog, fn, rep, sinks, sizes, assume=False):
        super().__init__(prog, fn, rep)
        self.sinks, self.sizes, self.params = sinks, sizes, assume
        self.found = set()
        self.indexed = 0
        self.nbs = None

    def before(self, e):
        self.sites = 0

    # -- what came from outside ---------------------------------------------------------------------------------------
    def tainted(self, st, v):
        a = flow.atoms(v)
        if any(("t", x) in st.ps for x in a):
            return "recv"
        b = bare(v)
        while b[0] == "tr":
            b = bare(b[1])
        if self.params and b[0] == "arg":
            return b[1]
        return None

    def taint(self, st, v):
        for a in flow.atoms(v):
            self.add(st, ("t", a))

    def load(self, e, st, ins, addr, path, val):
        self.index(e, st, ins, ins.ops[0])
        if path and path[-1] in CVALS:
            for x in self.get(st, "fork"):
                e.rel(st, ("zx", x[1], 16), val, LT if x[2] else EQ | GT)
        if path and path[-1] == ("scheduling_node_t", "id"):
            self.add(st, ("id", val))
        if val[0] == "c":
            return
        if any(x[1] == addr or x[1] == flow.root(addr) and x[2] for x in self.get(st, "ta")):
            if isinstance(ins.ty, tuple) and ins.ty[0] == "i":
                self.taint(st, val)

    def store(self, e, st, ins, addr, path, val):
        self.index(e, st, ins, ins.ops[1])
        self.drop(st, lambda x: x[0] == "ta" and x[1] == addr)
        if path and len(path) >= 1 and path[-1][0] == "*" and path[-1][1:] in NODEFIELDS and self.tainted(st, val) == "recv":
            f = [x[2] for x in self.get(st, "fork") if x[1] == val]
            if not f:
                self.add(st, ("nb", val))
            elif not f[0]:
                self.add(st, ("badnb",))

    # -- indices ------------------------------------------------------------------------------------------------------
    def steps(self, f, op, depth=0):
        """(index operand, bound or counter) of the array steps on the way to an address"""
        out = []
        d = f.defs.get(op[1]) if op[0] == "%" else None
        if op[0] == "cgep" or d is None or depth > 8:
            return out
        if d.op == "getelementptr":
            out += self.steps(f, d.ops[0], depth + 1)
            t = d.x
            ty = self.prog.mod.types
            for n, i in enumerate(d.ops[1:]):
                if n == 0:
                    if i[0] != "c":
                        p = self.prog.pinfo(f, d.ops[0])[0]
                        k = p[-1] if p else None
                        if k and k[0] == "*":
                            out.append((i, k[1:]))
                        elif k and k[0] == "@":
                            out.append((i, k))
                    continue
                if isinstance(t, tuple) and t[0] in ("s", "lit"):
                    t = ty.fields(t)[i[1]]
                elif isinstance(t, tuple) and t[0] == "arr":
                    p = self.prog.pinfo(f, d.ops[0])[0]
                    if t[1]:
                        out.append((i, t[1]))
                    elif p:
                        out.append((i, p[-1]))
                    t = t[2]
        return out

    def counter(self, k):
        if isinstance(k, tuple) and len(k) == 1:
            k = k[0]
        return COUNTS.get(k)

    def within(self, e, st, idx, bound):
        for v in spell(idx, self.prog, self.fn):
            if isinstance(bound, int):
                lo, hi = e.iv(st, v)[:2]
                if 0 <= lo and hi < bound:
                    return True
                if not e.pmask(st, v, ("c", bound), True) & (EQ | GT):
                    return True
            else:
                if ("lt", bare(idx), bound) in st.ps:
                    return True
                if bound == NODES[1] and self.own(e, st, v):
                    return True
                for k, n in self.counts(st):
                    if k == bound and self.less(e, st, v, n):
                        return True
        return False

    def counts(self, st):
        return [(p[-1], v) for v, p, s in st.mem.values() if p and p[-1] in CVALS]

    def prune(self, e, st):
        live = set()
        for v in st.env.values():
            live |= flow.atoms(v)
        for v, p, s in st.mem.values():
            live |= flow.atoms(v)
        dead = set()
        for x in st.ps:
            if x[0] == "t" and x[1] not in live:
                dead.add(x)
            elif x[0] in ("lt", "size", "fork", "id") and not (x[0] == "size" and x[1][0] == "al") and not flow.atoms(x[1]) <= live:
                dead.add(x)
        if dead:
            st.ps = st.ps - dead

    def own(self, e, st, idx):
        return any(not e.pmask(st, v, w, u) & (LT | GT) for i in self.get(st, "id") for w in spell(i[1], self.prog, self.fn) for v in spell(idx, self.prog, self.fn) for u in (True, False))

    def less(self, e, st, v, n):
        return any(not e.pmask(st, v, m, u) & (EQ | GT) for m in spell(n, self.prog, self.fn) for u in (True, False)
                   if u or e.iv(st, v)[0] >= 0 or v[0] == "zx")

    def note(self, e, st):
        ts = {x[1] for x in self.get(st, "t")}
        for k0, n in self.counts(st):
            cand = {bare(k[i]) for k in st.facts if k[0] in ("P", "U") for i in (1, 2)}
            for v in cand:
                if v[0] in ("v", "ex", "tr", "arg") and (flow.atoms(v) & ts or self.params and v[0] in ("arg", "tr")) and \
                        ("lt", v, k0) not in st.ps and any(self.less(e, st, s, n) for s in spell(v, self.prog, self.fn)):
                    self.add(st, ("lt", v, k0))
        for x in self.get(st, "id"):
            for k in list(st.facts):
                if k[0] in ("P", "U"):
                    for v in map(bare, k[1:3]):
                        if v != x[1] and flow.atoms(v) & ts and self.own(e, st, v):
                            self.add(st, ("lt", v, NODES[1]))
        for x in self.get(st, "nb"):
            if self.within(e, st, x[1], ("rti_common_t", "number_of_scheduling_nodes")):
                self.drop(st, lambda y: y == x)
            elif any(not e.pmask(st, v, m, u) & LT for k, n in self.counts(st) for m in spell(n, self.prog, self.fn) for v in spell(x[1], self.prog, self.fn) for u in (True, False)):
                self.drop(st, lambda y: y == x)
                self.add(st, ("badnb",))

    def index(self, e, st, ins, op):
        for i, k in self.steps(self.fn, op):
            v = e.ev(st, i)
            if isinstance(k, int) and v[0] == "c":
                if not 0 <= v[1] < k and (op[0], v) and k:
                    self.report("const", "%s() uses element %d of an array of %d at %s" % (self.fn.name, v[1], k, ins.where()), st, ins)
                continue
            b = k if isinstance(k, int) else self.counter(k)
            if b is None or v[0] == "c":
                continue
            who = self.tainted(st, v)
            if who is None:
                continue
            self.indexed += 1
            if not self.within(e, st, v, b):
                what = "%d" % b if isinstance(b, int) else b[-1]
                if who == "recv":
                    self.report("received/%s" % what, "%s() uses at %s a number that it received as an index, although it may not be less than %s" % (
                        self.fn.name, ins.where(), what), st, ins)
                else:
                    self.found.add((who, b))

    def neighbours(self):
        if self.nbs is None:
            ps = [self.prog.pinfo(self.fn, i.ops[1])[0] for i in self.fn.instrs() if i.op == "store"]
            self.nbs = any(p and p[-1][0] == "*" and p[-1][1:] in NODEFIELDS for p in ps)
        return self.nbs

    def edge(self, e, st, bb, succ):
        if self.get(st, "fork"):
            for k, v in list(st.env.items()):
                if v[0] == "cmp":
                    d = e.decide(st, v)
                    if d is not None:
                        st.env[k] = ("c", int(d))
        self.note(e, st)
        self.prune(e, st)
        return True

    # -- calls --------------------------------------------------------------------------------------------------------
    def call2(self, e, st, ins, name, args):
        self.note(e, st)
        if name in BUFFERS:
            self.sites += 1
            for o in ins.ops[:1] + ins.ops[2:3]:
                self.index(e, st, ins, o)
            if name in READ:
                self.drop(st, lambda x: x[0] == "size" and x[1] == flow.root(args[2]) and x[1][0] == "al")
            self.size(e, st, ins, name, args)
            if name in READ:
                e.default_call(st, ins, name, args)
                b = args[2]
                self.add(st, ("ta", flow.root(b), True))
                v = e.fresh(st, ins) if ins.res is not None else ("undef",)
                return [(st, v)]
            return None
        if name in COMPARE and len(args) > 2:
            for b in args[:2]:
                if any(x[2] and x[1] == flow.root(b) for x in self.get(st, "ta")):
                    self.size(e, st, ins, name, (None, args[2], b))
        if name in EXTRACT:
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] in ("fork", "lt", "id", "nb") and x[1] == v)
            self.taint(st, v)
            if name == "extract_uint16" and self.neighbours():
                # it is a federate of the federation, or it is not
                out = []
                for k in (True, False):
                    s = st.copy()
                    self.add(s, ("fork", v, k))
                    if k:
                        self.add(s, ("lt", v, ("rti_common_t", "number_of_scheduling_nodes")))
                    out.append((s, v))
                return out
            return [(st, v)]
        if name in HEADERS:
            e.default_call(st, ins, name, args)
            for k in HEADERS[name]:
                if k < len(args):
                    self.add(st, ("ta", args[k], False))
            return [(st, ("undef",))]
        if name in ("malloc", "calloc"):
            v = e.fresh(st, ins)
            n = args[0] if name == "malloc" else e.binop("mul", args[0], args[1], ins)
            self.drop(st, lambda x: x[0] == "size" and x[1] == v)
            self.add(st, ("size", v, n))
            return [(st, v)]
        if name == "HMAC":
            # the length it reports is that of the digest, which the variable contained already
            return [(st, e.fresh(st, ins))]
        if name in THREADS:
            fk, ak = THREADS[name]
            g = args[fk]
            if g[0] == "@" and (g[1], 0) in self.sinks:
                for b in self.sinks[(g[1], 0)]:
                    self.passed(e, st, ins, g[1], args[ak], b)
        for k, a in enumerate(args):
            for b in self.sinks.get((name, k), ()):
                self.passed(e, st, ins, name, a, b)
        if name in THREADS and self.fn.name == "lf_connect_to_federates":
            if ("badnb",) in st.ps or self.get(st, "nb"):
                self.report("neighbour", "%s() begins at %s to serve a federate with a neighbour that may not exist" % (
                    self.fn.name, ins.where()), st, ins)
        return None

    def passed(self, e, st, ins, name, a, b):
        while a[0] in ("i2p", "p2i", "zx", "sx") or a[0] == "cast":
            a = a[1]
        who = self.tainted(st, a)
        what = "%d" % b if isinstance(b, int) else b[-1]
        if who is None and not (a[0] == "c" and isinstance(b, int)):
            return
        self.indexed += 1
        if a[0] == "c":
            if not 0 <= a[1] < b:
                self.report("const/%s" % name, "%s() passes %d at %s to %s(), which uses it as the index of an array of %s" % (
                    self.fn.name, a[1], ins.where(), name, what), st, ins)
            return
        if not self.within(e, st, a, b):
            if who == "recv":
                self.report("received/%s/%s" % (name, what), "%s() passes at %s a number that it received to %s(), which uses it as an index, "
                            "although it may not be less than %s" % (self.fn.name, ins.where(), name, what), st, ins)
            else:
                self.found.add((who, b))

    # -- sizes --------------------------------------------------------------------------------------------------------
    def room(self, e, st, b):
        """linear form of the number of bytes from address b to the end of its object"""
        r = flow.root(b)
        off = combine(lin(b), lin(r), -1)
        n = None
        if r[0] == "al":
            d = self.prog.atom_ins(r[1])
            s = self.prog.mod.types.layout(d.x)[0]
            for x in self.get(st, "size"):
                if x[1] == r:
                    n = lin(x[2], s)
            if n is None and d.ops:
                v = e.ev(st, d.ops[0])
                n = lin(v, s)
                self.add(st, ("size", r, v))
            elif n is None:
                n = {None: s}
        elif r[0] == "@":
            g = self.prog.mod.globals.get(r[1])
            if g and g["type"] is not None and self.prog.mod.types.layout(g["type"])[0]:
                n = {None: self.prog.mod.types.layout(g["type"])[0]}
        elif r[0] == "arg":
            s = self.sizes.get((self.fn.name, r[1]))
            if s is not None:
                n = {None: s}
        else:
            for x in self.get(st, "size"):
                if x[1] == r:
                    n = lin(x[2])
        return None if n is None else combine(n, off, -1)

    def size(self, e, st, ins, name, args):
        room = self.room(e, st, args[2])
        if room is None:
            return
        n = args[1]
        left = combine(room, lin(n), -1)
        self.indexed += 1
        c = left.pop(None, 0)
        ok = not left and c >= 0
        # the sum of what may be left over is at least
        lo = c
        for a, k in left.items():
            l, h = e.iv(st, a)[:2]
            lo += k * (l if k > 0 else h)
        ok = ok or lo >= 0
        rc = room.get(None, 0)
        if not ok and set(room) <= {None} and bare(n)[0] != "c":
            ok = any(not e.pmask(st, v, ("c", rc), True) & GT for v in spell(n, self.prog, self.fn))
        if not ok:
            # compare the two sides as they are
            nl = lin(n)
            for k, v in st.facts.items():
                if k[0] in ("P", "U"):
                    d = combine(lin(k[1]), lin(k[2]), -1)
                    # left = const + d  or const - d
                    full = dict(left)
                    if c:
                        full[None] = c
                    for sgn, bad in ((1, LT), (-1, GT)):
                        r = combine(full, d, -sgn)
                        if set(r) <= {None} and r.get(None, 0) >= 0 and not v & bad:
                            ok = True
        if not ok:
            self.report("size/" + ("read" if name in READ else "write" if name in WRITE else name), "%s() %s at %s bytes that may be beyond the end of its buffer" % (
                self.fn.name, "reads" if name in READ else "writes" if name in WRITE else "looks with %s()" % name, ins.where()), st, ins)

    def ret(self, e, st, ins, val):
        self.note(e, st)
        if self.fn.name in KEEP and (("badnb",) in st.ps or self.get(st, "nb")):
            lo, hi, ne = e.iv(st, val)
            if (lo, hi) != (0, 0):
                self.report("neighbour", "%s() accepts at %s a federate with a neighbour that may not exist" % (
                    self.fn.name, ins.where()), st, ins)


OPTIONS = {"process_args": "no other thread exists while the options are read"}
# analysed on their own, if they exist, to save time
KEEP = frozenset(("handle_message", "handle_port_absent_message", "handle_stop_request_message", "handle_stop_granted_message",
                  "handle_tag_advance_grant", "handle_provisional_tag_advance_grant", "receive_and_check_fed_id_message",
                  "receive_udp_message_and_set_up_clock_sync", "authenticate_federate", "receive_connection_information"))


def bufsizes(prog):
    """smallest buffers that functions are called with: (function, parameter) -> bytes"""
    out = {}
    for f in prog.mod.funcs.values():
        for i in f.instrs():
            if i.op != "call" or i.x not in prog.mod.funcs:
                continue
            g = prog.mod.funcs[i.x]
            for k, o in enumerate(i.ops[:len(g.args)]):
                if i.tys[k] != "ptr":
                    continue
                s = objsize(prog, f, o)
                key = (g.name, g.args[k])
                out[key] = min(out.get(key, s), s) if s is not None and out.get(key, 0) is not None else None
    return {k: v for k, v in out.items() if v is not None}


def objsize(prog, f, o):
    d = f.defs.get(o[1]) if o[0] == "%" else None
    ty = prog.mod.types
    if d is None:
        return None
    if d.op == "alloca":
        n = 1
        if d.ops:
            if d.ops[0][0] != "c":
                return None
            n = d.ops[0][1]
        return ty.layout(d.x)[0] * n
    if d.op == "getelementptr" and all(x[0] == "c" for x in d.ops[1:]):
        b = objsize(prog, f, d.ops[0])
        if b is None:
            return None
        off, t = 0, d.x
        for n, i in enumerate(d.ops[1:]):
            if n == 0:
                off += i[1] * ty.layout(t)[0]
            elif t[0] in ("s", "lit"):
                off += ty.layout(t)[2][i[1]]
                t = ty.fields(t)[i[1]]
            else:
                t = t[2]
                off += i[1] * ty.layout(t)[0]
        return b - off
    return None


def bounds(config, tier, rep):
    prog = program(config, keep=KEEP)
    fns = [f for f in prog.mod.funcs.values() if any(
        i.op == "call" and (i.x in READ or i.x in WRITE or i.x in EXTRACT or i.x in HEADERS) for i in f.instrs()) and
        f.name not in EXTRACT and f.name not in HEADERS and f.name not in READ and f.name not in WRITE]
    sizes = bufsizes(prog)
    sinks = {}
    # functions that use a parameter as an index
    for rnd in range(4):
        before = dict((k, set(v)) for k, v in sinks.items())
        for f in fns:
            if not f.args:
                continue
            c = Bounds(prog, f, Report(), sinks, sizes, True).run()
            for a, b in c.found:
                sinks.setdefault((f.name, f.args.index(a)), set()).add(b)
        if before == sinks:
            break
    n = m = 0
    for f in fns:
        c = Bounds(prog, f, rep, sinks, sizes).run()
        n += c.sites
        m += c.indexed
    for f in stores_of(prog, set(COUNTS.values())):
        if f.name not in STARTUP and f.name not in ADMIT and f.name not in OPTIONS:
            rep.violation("index/count/" + f.name, "%s() changes the number of elements of an array" % f.name)
    rep.count("transfers with a buffer", n)
    rep.count("indices and sizes judged", m)
    rep.samples += ["%s: argument %d" % k for k in sinks]
