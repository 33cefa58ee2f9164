"""Rules about sockets: transfers are complete or fail, what a failed read left behind is not used, sizes and indices are bounded."""
from .tags2 import *
from .tags3 import anchor

RAW = {"read": "read", "recv": "read", "write": "write", "send": "write"}
READ = ("read_from_socket", "read_from_socket_close_on_error", "read_from_socket_fail_on_error")
WRITE = ("write_to_socket", "write_to_socket_close_on_error", "write_to_socket_fail_on_error")
RETRY = {4, 11}                      # EINTR, EAGAIN
T = ("T",)


def lin(v, k=1, out=None):
    """linear form: {atom: coefficient}, the constant under None"""
    out = {} if out is None else out
    if v[0] == "c":
        out[None] = out.get(None, 0) + k * v[1]
    elif v[0] == "+":
        lin(v[1], k, out)
        out[None] = out.get(None, 0) + k * v[2]
    elif v[0] == "ix":
        lin(v[1], k, out)
        lin(v[2], k * v[3], out)
    elif v[0] == "bin" and v[1] in ("add", "sub"):
        lin(v[2], k, out)
        lin(v[3], k if v[1] == "add" else -k, out)
    elif v[0] == "bin" and v[1] == "mul" and v[3][0] == "c":
        lin(v[2], k * v[3][1], out)
    elif v[0] in ("zx", "sx") and v[1][0] == "+" and v[1][1][0] == "zx" and v[1][1][2] < v[2] - 1 and 0 <= v[1][2] < 1 << v[1][1][2]:
        lin(v[1], k, out)       # cannot wrap around
    else:
        out[v] = out.get(v, 0) + k
    return {a: c for a, c in out.items() if c}


def combine(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return {x: c for x, c in out.items() if c}


class Sock(Base):
    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def call(self, e, st, ins, name, args):
        if name == "__errno_location":
            return [(st, ("call", "__errno_location"))]
        return self.call2(e, st, ins, name, args)

    def call2(self, e, st, ins, name, args):
        return None


class Loop(Sock):
    """transfers all the bytes, in order, or fails"""
    rule = "io"

    def before(self, e):
        self.inits = {}
        self.signs = {}
        self.learned = getattr(self, "learned", None)

    def run(self):
        rep, self.rep = self.rep, Report()
        super().run()
        self.learned = {r: (self.inits[r], s.pop()) for r, s in self.signs.items() if len(s) == 1 and r in self.inits}
        self.rep, self.sites = rep, 0
        return super().run()

    def form(self, st, v):
        """linear form with the counters replaced by what they count"""
        out, cur = {}, {}
        for r, (init, c) in (self.learned or {}).items():
            L = lin(st.env.get(r, ("v", self.fn.defs[r].id)))
            for a, k in L.items():
                if a is not None and a[0] == "v" and a not in init and a not in cur and k in (1, -1):
                    # solve  L = init + c * T  for a
                    rest = combine(combine(init, {T: c}), {x: y for x, y in L.items() if x != a}, -1)
                    cur[a] = {x: y * k for x, y in rest.items()}
                    break
        for a, k in lin(v).items():
            out = combine(out, cur.get(a, {a: 1}), k)
        return out

    def call2(self, e, st, ins, name, args):
        if name in RAW:
            self.sites += 1
            self.pending(e, st, ins)
            F, N = self.form(st, args[1]), self.form(st, args[2])
            buf, num = ("arg", self.fn.args[2]), ("arg", self.fn.args[1])
            if args[0] != ("arg", self.fn.args[0]):
                self.report("socket", "%s() uses at %s a socket other than the one that it was given" % (self.fn.name, ins.where()), st, ins)
            if F != {buf: 1, T: 1} and not (F == {buf: 1} and self.nothing(st)):
                self.report("where", "%s() transfers at %s bytes other than those that follow the ones already transferred" % (
                    self.fn.name, ins.where()), st, ins)
            if N != {num: 1, T: -1} and not (N == {num: 1} and self.nothing(st)):
                self.report("many", "%s() asks at %s for a number of bytes other than what is left" % (self.fn.name, ins.where()), st, ins)
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            st.mem.pop(("call", "__errno_location"), None)
            self.drop(st, lambda x: x[0] in ("m", "again", "all"))
            self.add(st, ("m", v), ("some",))
            return [(st, v)]
        return None

    def nothing(self, st):
        """nothing has been transferred yet"""
        return ("some",) not in st.ps or any(lin(st.env.get(r, ("v", self.fn.defs[r].id))) == init
                                             for r, (init, c) in (self.learned or {}).items())

    def pending(self, e, st, ins):
        for x in self.get(st, "m"):
            if e.iv(st, x[1])[1] > 0:
                self.report("count", "%s() goes on at %s without having counted what it transferred" % (self.fn.name, ins.where()), st, ins)

    def edge(self, e, st, bb, succ):
        f = self.fn
        body = e.loops.get(succ)
        ms = self.get(st, "m")
        if ms:
            n = e.iv(st, st.mem.get(("call", "__errno_location"), (("undef",),))[0])
            if n[0] == n[1] and n[0] in RETRY:
                self.add(st, ("again",))
        if ("all",) not in st.ps and self.learned is not None and self.all(e, st):
            self.add(st, ("all",))
        last = f.blocks[bb].ins[-1]
        if body is None:
            return True
        if bb not in body:
            for i in f.blocks[succ].phis:
                v = [e.ev(st, o) for o, pb in i.x if pb == bb][0]
                l = lin(v)
                if i.res in self.inits and self.inits[i.res] != l:
                    self.signs.setdefault(i.res, set()).update((1, -1))
                self.inits[i.res] = l
            return True
        counted = False
        for i in f.blocks[succ].phis:
            old = st.env.get(i.res, ("v", i.id))
            d = combine(lin([e.ev(st, o) for o, pb in i.x if pb == bb][0]), lin(old), -1)
            s = self.signs.setdefault(i.res, set())
            if ms:
                m = ms[0][1]
                lo, hi = e.iv(st, m)[:2]
                for c in (1, -1):
                    if d == lin(m, c):
                        if lo >= 0:
                            s.add(c)
                            counted = True
                        else:
                            s.update((1, -1))
                        break
                else:
                    if d or hi > 0:
                        s.update((1, -1))
            elif d:
                s.update((1, -1))
        for x in ms:
            lo, hi, ne = e.iv(st, x[1])
            if lo < 0:
                if ("again",) not in st.ps:
                    self.report("retry", "%s() tries again at %s after an error that may be final" % (f.name, last.where()), st, last)
            elif lo <= 0 and 0 not in ne and any(i.op == "call" and RAW.get(i.x) == "read" for b in body for i in f.blocks[b].ins):
                self.report("end", "%s() goes on reading at %s although the other side may have closed the connection" % (f.name, last.where()), st, last)
            if hi > 0 and not counted:
                self.report("count", "%s() goes on at %s without having counted what it transferred" % (f.name, last.where()), st, last)
        self.drop(st, lambda x: x[0] in ("m", "again"))
        return True

    def rename(self, e, st, sub):
        pass

    def all(self, e, st):
        """is it known that everything was transferred?"""
        num = ("arg", self.fn.args[1])
        up, down = {T: 1, num: -1}, {T: -1, num: 1}
        if self.nothing(st):
            up, down = {num: -1}, {num: 1}
        extra = {}
        for x in self.get(st, "m"):
            if e.iv(st, x[1])[0] >= 0:
                extra = {x[1]: 1}
        for k, v in st.facts.items():
            if k[0] in ("P", "U"):
                l = combine(self.form(st, k[1]), self.form(st, k[2]), -1)
                if l in (up, combine(up, extra)) and not v & LT or l in (down, combine(down, extra, -1)) and not v & GT:
                    return True
            elif k[0] == "I":
                l = self.form(st, k[1])
                if l in (down, combine(down, extra, -1)) and v[1] <= 0:
                    return True
                if l in (up, combine(up, extra)) and v[0] >= 0:
                    return True
        return e.iv(st, num)[1] <= 0

    def ret(self, e, st, ins, val):
        self.sites += 1
        lo, hi, ne = e.iv(st, val)
        failed = any(e.iv(st, x[1])[1] <= 0 for x in self.get(st, "m")) or e.iv(st, ("arg", self.fn.args[0]))[1] < 0
        if lo <= 0 <= hi and 0 not in ne:
            if failed or ("all",) not in st.ps and not self.all(e, st):
                self.report("part", "%s() may report success at %s although not all bytes were transferred" % (self.fn.name, ins.where()), st, ins)
        elif not failed:
            self.report("false", "%s() reports an error at %s although there was none" % (self.fn.name, ins.where()), st, ins)


class Wrap(Sock):
    """passes the outcome on, and closes the socket on errors"""
    rule = "io"

    def call2(self, e, st, ins, name, args):
        if name in READ + WRITE:
            self.sites += 1
            a = [("arg", x) for x in self.fn.args]
            sock = args[0]
            plain = name in ("read_from_socket", "write_to_socket")
            loaded = [x[2] for x in self.get(st, "sock")]
            if (plain and sock not in loaded) or (not plain and sock != a[0]) or args[1:3] != a[1:3]:
                self.report("args", "%s() transfers at %s something else than it was asked for" % (self.fn.name, ins.where()), st, ins)
            v = e.fresh(st, ins) if ins.res is not None else ("c", 0)
            self.add(st, ("r", v, plain))
            if not plain:
                self.add(st, ("closed",), ("unset",))
            return [(st, v)]
        if name == "close":
            if args[0] in [x[2] for x in self.get(st, "sock")]:
                self.add(st, ("closed",))
            return [(st, e.fresh(st, ins))]
        if name == "shutdown":
            return [(st, e.fresh(st, ins) if ins.res is not None else ("undef",))]
        return None

    def load(self, e, st, ins, addr, path, val):
        if addr == ("arg", self.fn.args[0]):
            self.add(st, ("sock", addr, val))

    def store(self, e, st, ins, addr, path, val):
        if addr == ("arg", self.fn.args[0]) and e.iv(st, val)[1] < 0:
            self.add(st, ("unset",))

    def ret(self, e, st, ins, val):
        self.sites += 1
        r = self.get(st, "r")
        if not r:
            self.report("none", "%s() returns at %s without having transferred anything" % (self.fn.name, ins.where()), st, ins)
            return
        v = r[0][1]
        ok = e.iv(st, v)[:2] == (0, 0)
        bad = 0 in e.iv(st, v)[2] or e.iv(st, v)[0] > 0 or e.iv(st, v)[1] < 0
        if self.fn.name.endswith("fail_on_error"):
            if not ok and not (self.fn.name in WRITE and e.iv(st, ("arg", self.fn.args[4]))[:2] == (0, 0)):
                self.report("fail", "%s() may return at %s after an error" % (self.fn.name, ins.where()), st, ins)
            return
        lo, hi, ne = e.iv(st, val)
        if not (val == v or ok and (lo, hi) == (0, 0) or bad and (0 in ne or lo > 0 or hi < 0)):
            self.report("result", "%s() returns at %s a result other than the outcome of the transfer" % (self.fn.name, ins.where()), st, ins)
        if not ok and not {("closed",), ("unset",)} <= st.ps:
            self.report("open", "%s() returns at %s after an error without having closed the socket and marked it as closed" % (
                self.fn.name, ins.where()), st, ins)


class Used(Sock):
    """what a failed read left in the buffer is not looked at"""
    rule = "used"
    K = 8

    def call2(self, e, st, ins, name, args):
        if name in READ:
            b = flow.root(args[2])
            self.drop(st, lambda x: x[0] == "r" and x[1] == b)
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins) if ins.res is not None else ("undef",)
            self.sites += 1
            if not name.endswith("fail_on_error"):
                if ins.res is None:
                    v = ("undef",)
                self.add(st, ("r", b, v))
            return [(st, v)]
        if name and not name.startswith(flow.QUIET_PREFIX) and name not in ("free", "lf_print_error", "realloc"):
            for a in args:
                self.use(e, st, ins, a)
        return None

    def use(self, e, st, ins, a):
        if a[0] not in ("al", "v", "+", "ix", "arg", "@"):
            return
        b = flow.root(a)
        for x in self.get(st, "r"):
            if x[1] == b:
                if x[2][0] != "undef" and e.iv(st, x[2])[:2] == (0, 0):
                    self.drop(st, lambda y: y == x)
                else:
                    self.report("failed", "%s() uses at %s what was read, although reading may have failed" % (self.fn.name, ins.where()), st, ins)

    def load(self, e, st, ins, addr, path, val):
        self.use(e, st, ins, addr)

    def edge(self, e, st, bb, succ):
        for x in self.get(st, "r"):
            if x[2][0] != "undef":
                n = e.iv(st, x[2])
                if n[:2] == (0, 0):
                    self.drop(st, lambda y: y == x)
        return True


def io(config, tier, rep):
    prog = program(config)
    n = 0
    for nm in ("read_from_socket", "write_to_socket"):
        n += Loop(prog, anchor(prog, nm), rep).run().sites
    for nm in READ[1:] + WRITE[1:]:
        n += Wrap(prog, anchor(prog, nm), rep).run().sites
    rep.count("steps of the transfer of bytes", n)
    m = 0
    for f in list(prog.mod.funcs.values()):
        if f.name not in READ and any(i.op == "call" and i.x in READ for i in f.instrs()):
            m += Used(prog, f, rep).run().sites
    rep.count("paths to a read", m)
    rep.need("reads in " + config, m, 5)


# ---------------------------------------------------------------------------------------------------------------------
# frames of different threads do not interleave
from .context import Context, chain_text
from .guards import OUT, RTI as RTILOCK

SHARED = {("federate_instance_t", "socket_TCP_RTI"): OUT, ("federate_instance_t", "sockets_for_outbound_p2p_connections"): OUT,
          ("federate_info_t", "socket"): RTILOCK}
FRAMES_EXEMPT = {
    "lf_connect_to_rti": "no other thread uses the socket yet",
    "lf_create_server": "no other thread uses the socket yet",
    "lf_connect_to_federates": "the thread that serves the federate does not exist yet",
    "synchronize_initial_physical_clock_with_rti": "no other thread uses the socket yet",
    "lf_synchronize_with_other_federates": "no other thread uses the socket yet",
    "lf_terminate_execution": "the process dies after an abnormal end: it must not wait for the lock",
    "termination": "the process dies",
    "handle_timestamp": "until it marks the federate as started, nobody else writes to it (rules rti2.sends, rti3.started, rti4.relay)",
}


class Frames(Context):
    def __init__(self, prog, rep):
        self.sites = set()
        touch = set()
        for f in prog.mod.funcs.values():
            for i in f.instrs():
                if i.op == "call" and i.x in WRITE and self.lock(prog, f, i):
                    touch.add(f.name)
        super().__init__(prog, rep, touch)

    def paths(self, prog, f, op, seen):
        """the fields that a socket, or its address, may come from"""
        p = prog.pinfo(f, op)[0]
        if p:
            return {p[-1]}
        d = f.defs.get(op[1]) if op[0] == "%" else None
        if d is None or op[1] in seen:
            return set()
        seen.add(op[1])
        if d.op == "load":
            p = prog.access(d)[0]
            return {p[-1]} if p else set()
        out = set()
        if d.op == "phi":
            for v, _ in d.x:
                out |= self.paths(prog, f, v, seen)
        elif d.op == "select":
            for v in d.ops[1:]:
                out |= self.paths(prog, f, v, seen)
        elif d.op == "getelementptr":
            out |= self.paths(prog, f, d.ops[0], seen)
        return out

    def lock(self, prog, f, i):
        ps = {x[-2:] if x[0] == "*" else x for x in self.paths(prog, f, i.ops[0], set())}
        return {SHARED[x] for x in ps if x in SHARED}

    def probe(self, c, e, st, ins, kind, *d):
        if kind == "call" and d[0] in WRITE:
            ls = self.lock(self.prog, ins.fn, ins)
            for l in ls:
                self.sites.add(ins.where())
            return [(l, ins.where()) for l in ls]
        return ()

    def settled(self, w, h):
        return any(c == w[0] and n > 0 for c, n in h)


def frames(config, tier, rep):
    prog = program(config)
    an = Frames(prog, rep)
    for n, w, h, pre, ins, st, ch in an.run():
        via = {n} | {f for f, _ in ch} | {ins.fn.name, srcfn(ins)}
        if via & set(FRAMES_EXEMPT):
            continue
        rep.violation("frames/%s/%s" % (srcfn(ins), n), "on a path from %s(), %s() writes to a shared socket at %s without holding %s, so "
                      "that its message may end up inside another one" % (n, srcfn(ins), w[1], w[0].lstrip("@")),
                      chain_text(prog, n, ch) + trace_text(prog, st))
    rep.count("writes to shared sockets", len(an.sites))
    rep.samples += sorted(an.sites)
