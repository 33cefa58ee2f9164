"""Rules about whom the coordinator admits, and about what it makes of numbers received."""
from .rti4 import *

FEDID = (REMOTE, "federation_id")
AUTH = (REMOTE, "authentication_enabled")
CLOSE_ON_ERROR = {"read_from_socket_close_on_error", "write_to_socket_close_on_error"}
THREAD = "federate_info_thread_TCP"


class Admit(Agree):
    """a connection becomes a federate only if it names this federation and an identifier that exists and is free (and is
    authentic, where that is asked for); otherwise nothing of it remains"""
    rule = "admit"
    K = 24

    def __init__(self, *a, auth=False):
        super().__init__(*a)
        self.auth = auth

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def headers(self, e):
        return set()

    def before(self, e):
        self.loop = None
        for h, body in e.loops.items():
            if any(i.op == "call" and i.x == "accept" for b in body for i in self.fn.blocks[b].ins):
                # the outermost loop that accepts
                if self.loop is None or len(body) > len(e.loops[self.loop]):
                    self.loop = h
        if self.loop is None:
            raise AnalysisBroken("anchor lost: no loop that accepts connections in " + self.fn.name)

    # -- what is read -------------------------------------------------------------------------------------------------
    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        if path and path[-1] == FEDID:
            self.add(st, ("mine", val))
        elif path and path[-1] == AUTH:
            self.add(st, ("auth", val))
        for x in self.get(st, "into"):
            if addr == x[1] and self.prog.mod.types.layout(ins.ty)[0] == 1:
                self.add(st, ("first", val))
        for x in self.get(st, "hmac"):
            if addr == x[2]:
                self.add(st, ("maclen", val))

    def store(self, e, st, ins, addr, path, val):
        super().store(e, st, ins, addr, path, val)
        if any(x[1] == val for x in self.get(st, "accepted")):
            self.add(st, ("var", addr))

    def call3(self, e, st, ins, name, args):
        if name in READS:
            n, b = args[1], args[2]
            self.drop(st, lambda x: x[0] in ("into", "first", "io"))
            self.drop(st, lambda x: x[0] == "read" and x[1] == b)
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins) if ins.res is not None else ("c", 0)
            self.add(st, ("into", b))
            if not self.get(st, "pend"):
                self.add(st, ("read", b, n))
            if name in CLOSE_ON_ERROR:
                self.add(st, ("io", v))
            return [(st, v)]
        if name in WRITES:
            for x in self.get(st, "nonce"):
                self.add(st, ("noncesent", x[1])) if self.copied(st, x[1], args[2]) else None
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins) if ins.res is not None else ("c", 0)
            if name in CLOSE_ON_ERROR:
                self.add(st, ("io", v))
            return [(st, v)]
        if name in ("extract_uint16", "extract_int64", "extract_int32", "extract_tag"):
            v = e.fresh(st, ins)
            if name == "extract_uint16" and not self.get(st, "pend"):
                self.add(st, ("got16", v))
            return [(st, v)]
        if name in ("strcmp", "strncmp", "memcmp", "bcmp", "CRYPTO_memcmp"):
            v = e.fresh(st, ins)
            self.add(st, ("cmp", v, name) + tuple(args[:3]))
            return [(st, v)]
        if name in ("strlen", "strnlen"):
            v = e.fresh(st, ins)
            self.add(st, ("len", v, args[0]))
            return [(st, v)]
        if name == "RAND_bytes":
            self.drop(st, lambda x: x[0] in ("nonce", "copy") and x[1] == args[0])
            self.add(st, ("nonce", args[0]))
            return [(st, e.fresh(st, ins))]
        if name and name.startswith(("llvm.memcpy", "memcpy")):
            self.add(st, ("copy", args[1], args[0], args[2]))
            return None
        if name == "HMAC":
            src = [x[1] for x in self.get(st, "nonce") if self.copied(st, x[1], args[3])]
            self.drop(st, lambda x: x[0] == "hmac" and x[1] == args[5])
            e.default_call(st, ins, name, args)
            if src and any(x[1] == args[1] for x in self.get(st, "mine")):
                self.add(st, ("hmac", args[5], args[6]))
            return [(st, e.fresh(st, ins))]
        if name == "accept":
            self.over(e, st, ins)
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] in ("accepted", "pend", "served", "closed", "nonce", "noncesent", "copy", "hmac", "maclen", "cmp",
                                             "first", "got16", "io", "is", "len", "authentic"))
            self.add(st, ("accepted", v))
            return [(st, v)]
        if name in ("close", "shutdown", "send_reject"):
            if name != "shutdown":
                self.add(st, ("closed",))
            if name == "send_reject":
                e.default_call(st, ins, name, args)
                return [(st, ("undef",))]
            return [(st, e.fresh(st, ins))]
        if name == "lf_thread_create" and args[1] == ("@", THREAD):
            self.serve(e, st, ins, args[2])
            return [(st, e.fresh(st, ins))]
        return None

    def copied(self, st, src, base):
        """was the whole nonce copied into the buffer?"""
        if flow.root(src) == flow.root(base):
            return True
        return any(x[1] == src and x[3] == ("c", macro("NONCE_LENGTH")) and flow.root(x[2]) == flow.root(base) for x in self.get(st, "copy"))

    def call2(self, e, st, ins, name, args):
        if name in ("extract_int64", "extract_tag"):
            return self.call3(e, st, ins, name, args)
        return super().call2(e, st, ins, name, args)

    # -- what is decided ----------------------------------------------------------------------------------------------
    def edge(self, e, st, bb, succ):
        r = super().edge(e, st, bb, succ)
        for x in self.get(st, "io"):
            if sure(e, st, x[1]):
                self.add(st, ("closed",))
        for x in self.get(st, "first"):
            for v in {x[1]} | {k[1] for k in st.facts if k[0] == "I" and strip(k[1]) == x[1]}:
                lo, hi = e.iv(st, v)[:2]
                if lo == hi:
                    self.add(st, ("is", lo & 255))
        if not self.loop:
            return r
        body = e.loops[self.loop]
        if succ == self.loop and bb in body:
            self.count(e, st, bb)
        elif succ == self.loop:
            self.drop(st, lambda x: x[0] == "from")
            for i in self.phis():
                v = [e.ev(st, o) for o, pb in i.x if pb == bb][0]
                if v[0] == "c":
                    self.add(st, ("from", i.res, v[1]))
        elif bb in body and succ not in body and self.fn.blocks[succ].ins[-1].op != "unreachable":
            where = self.fn.blocks[bb].ins[-1].where()
            start = {x[1]: x[2] for x in self.get(st, "from")}
            for i in self.phis():
                v = flow.plus(st.env.get(i.res, ("v", i.id)), -start.get(i.res, 1 << 40))
                if not any(not e.pmask(st, a, b) & LT for a in forms(v) + (v,) for n in self.shared(st, NODES)
                           for b in (n, ("zx", strip(n), 16), strip(n))):
                    self.bad.setdefault(i.res, ("all", "%s() stops accepting federates at %s although not all may be there" %
                                                (self.fn.name, where), st))
        return r

    def phis(self):
        return [i for i in self.fn.blocks[self.loop].phis if i.ty[0] == "i"]

    def run(self):
        self.bad = {}
        super().run()
        ps = self.phis()
        if ps and all(i.res in self.bad for i in ps):
            # report what is wrong with the one that counts
            i = max(ps, key=lambda i: self.bad[i.res][0] == "count" and i.res in getattr(self, "right", ()))
            key, msg, st = self.bad[i.res]
            self.report(key, msg, st, None)
        return self

    def count(self, e, st, bb):
        """each federate admitted counts, and nothing else"""
        self.sites += 1
        self.right = getattr(self, "right", set())
        want = 1 if self.get(st, "served") else 0
        for i in self.phis():
            old = st.env.get(i.res, ("v", i.id))
            new = [e.ev(st, o) for o, pb in i.x if pb == bb][0]
            if strip(new) == flow.plus(strip(old), want):
                if want:
                    self.right.add(i.res)
            else:
                self.bad.setdefault(i.res, ("count", "%s() goes on at %s having counted %s" % (
                    self.fn.name, self.fn.blocks[bb].ins[-1].where(),
                    "a connection that was not admitted" if not want else "less or more than the federate it admitted"), st))
        self.over(e, st, self.fn.blocks[bb].ins[-1])
        self.drop(st, lambda x: x[0] in ("accepted", "served", "pend"))

    def zero(self, e, st, v):
        return e.iv(st, v)[:2] == (0, 0)

    def same_federation(self, e, st):
        mine = {x[1] for x in self.get(st, "mine")}
        for v, name, a, b, n in [x[1:] + (None,) * (6 - len(x)) for x in self.get(st, "cmp")]:
            if not self.zero(e, st, v):
                continue
            if a in mine:
                theirs = b
            elif b in mine:
                theirs = a
            else:
                continue
            got = [x[2] for x in self.get(st, "read") if x[1] == theirs]
            if not got:
                continue
            if name == "strcmp":
                return True
            for L in got:
                if n == flow.plus(L, 1) or n[0] == "c" and n[1] > 255:
                    return True
                lens = [x[1] for x in self.get(st, "len") if x[2] in mine]
                if same((1, n), (-1, L)) and any(e.pmask(st, L, x) == EQ for x in lens):
                    return True
                if any(n == x for x in lens) and any(e.pmask(st, L, x) == EQ for x in lens):
                    return True
                theirlens = [x[1] for x in self.get(st, "len") if x[2] == theirs]
                if any(n in (x, L) and e.pmask(st, x, y) == EQ for x in theirlens for y in lens):
                    return True
        return False

    def authentic(self, e, st):
        for x in self.get(st, "auth"):
            if sure(e, st, x[1]) is False:
                return True
        macs = {x[1] for x in self.get(st, "hmac")}
        lens = {strip(x[1]) for x in self.get(st, "maclen")}
        reads = {flow.root(x[1]) for x in self.get(st, "read")}
        for x in self.get(st, "cmp"):
            if x[2] in ("strcmp", "strncmp") or len(x) < 6 or not self.zero(e, st, x[1]):
                continue
            for a, b in ((x[3], x[4]), (x[4], x[3])):
                if a in macs and flow.root(b) in reads and self.get(st, "noncesent") and \
                        (strip(x[5]) in lens or x[5][0] == "c" and x[5][1] >= macro("SHA256_HMAC_LENGTH")):
                    return True
        return False

    def stored(self, e, st, ins, node, field, val):
        if field != "state":
            return
        if val == ("c", NOT_CONNECTED):
            self.drop(st, lambda x: x[0] == "pend" and self.samenode(st, x[1], node))
        elif val == ("c", PENDING):
            self.sites += 1
            bad = None
            ids = {strip(x[1]) for x in self.get(st, "got16")}
            num = [x[3] for x in self.nodes(st) if x[1] == node and x[2] == "num" and strip(x[3]) in ids]
            N = self.shared(st, NODES)
            if not num:
                bad = "as a federate other than the one that it says it is"
            elif not any(not e.pmask(st, a, b, u) & (EQ | GT) for i in num for a in forms(i) for n in N for b in (n, ("zx", n, 16))
                         for u in (False, True)):
                bad = "although the identifier may not exist"
            elif self.known(e, st, node, "state") != (NOT_CONNECTED, NOT_CONNECTED):
                bad = "although the identifier may be in use"
            elif not self.same_federation(e, st):
                bad = "although it may belong to another federation"
            elif self.auth and not self.authentic(e, st):
                bad = "although it may not be authentic"
            if bad:
                self.report("accept", "%s() accepts a connection at %s %s" % (self.fn.name, ins.where(), bad), st, ins)
            self.add(st, ("pend", node))
            self.drop(st, lambda x: x[0] in ("cmp", "read", "got16", "len", "mine", "hmac", "maclen", "nonce", "noncesent", "copy", "auth"))

    def samenode(self, st, a, b):
        if a == b:
            return True
        A = {strip(x[3]) for x in self.nodes(st) if x[1] == a and x[2] == "num"}
        B = {strip(x[3]) for x in self.nodes(st) if x[1] == b and x[2] == "num"}
        return bool(A & B)

    def serve(self, e, st, ins, node):
        self.sites += 1
        bad = None
        if not any(self.samenode(st, x[1], node) for x in self.get(st, "pend")):
            bad = "that was not accepted"
        for k in ("MSG_TYPE_NEIGHBOR_STRUCTURE", "MSG_TYPE_UDP_PORT"):
            if not ("is", macro(k)) in st.ps:
                bad = bad or "from which no %s was received" % k
        if self.get(st, "served"):
            bad = "twice"
        if bad:
            self.report("serve", "%s() starts serving a federate at %s %s" % (self.fn.name, ins.where(), bad), st, ins)
        self.add(st, ("served", node))

    def over(self, e, st, ins):
        """done with a connection"""
        if not self.get(st, "accepted") or self.get(st, "served"):
            return
        if any(e.iv(st, x[1])[1] < 0 for x in self.get(st, "accepted")):
            return
        for x in self.get(st, "var"):
            if x[1] in st.mem and e.iv(st, st.mem[x[1]][0])[1] < 0:
                self.add(st, ("closed",))           # the functions that close a socket set its variable to -1
        if self.get(st, "pend"):
            self.report("slot", "%s() is done at %s with a connection that it rejected, but its identifier stays in use" %
                        (self.fn.name, ins.where()), st, ins)
        if ("closed",) not in st.ps:
            self.report("open", "%s() is done at %s with a connection that it rejected, but does not close it" %
                        (self.fn.name, ins.where()), st, ins)

    def ret(self, e, st, ins, val):
        self.flush(e, st)
        self.sites += 1
        self.over(e, st, ins)


class Reject(Base):
    """a rejection closes the connection"""
    rule = "admit"

    def call(self, e, st, ins, name, args):
        if name == "close":
            self.add(st, ("closed",))

    def ret(self, e, st, ins, val):
        if ("closed",) not in st.ps:
            self.report("reject", "%s() returns at %s without having closed the connection" % (self.fn.name, ins.where()), st, ins)


def admit(config, tier, rep):
    prog = program(config)
    f = anchor(prog, "lf_connect_to_federates")
    c = Admit(prog, f, rep, auth=config == "rti-auth").run()
    rep.count("decisions on connections", c.sites)
    if "send_reject" in prog.mod.funcs:
        Reject(prog, prog.mod.funcs["send_reject"], rep).run()
    # nobody else admits
    for g in prog.mod.funcs.values():
        if g is not f and any(i.op == "store" and i.ops[0] == ("c", PENDING) and (prog.access(i)[0] or (None,))[-1] == (NODE, "state")
                              for i in g.instrs()):
            rep.violation("admit/where/" + g.name, "%s() admits a federate" % g.name)
