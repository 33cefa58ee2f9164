"""Rules about the coordinator: which tags are granted, and that what is learned from a federate is acted upon."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from .tags import fieldoff
from .tags2 import Base
from .tagutil import tagat, order, TagWrites
from .tags3 import anchor, part, FOREVER, NEVER, MAX, MIN, isall

NODE = "scheduling_node_t"
NEVERT = (NEVER, ("c", 0))
NOT_CONNECTED, GRANTED, PENDING = 0, 1, 2


def nf(f):
    return (NODE, f)


def index(prog, addr, path, size):
    """index of the array element that addr lies in"""
    if ("minimum_delay_t", "id") in path or ("minimum_delay_t", "min_delay") in path:
        size = prog.mod.types.layout(("s", "struct.minimum_delay_t"))[0]
    off, a = (addr[2], addr[1]) if addr[0] == "+" else (0, addr)
    if a[0] == "ix":
        return flow.plus(a[2], off // size)
    return ("c", off // size)


def truth(e, st, v):
    """is the value known to be true / false / unknown (None)?"""
    d = e.decide(st, v)
    return d if d is not None or v[0] != "v" else e.decide(st, ("cmp", "ne", v, ("c", 0)))


class Nodes(Base):
    """keeps track of what is loaded from a node's neighbours: ("up", v, i): v = upstream[i]; ("node", n, what, i): n is
    the node whose number came from upstream[i] / downstream[i] / min_delays[i].id / an expression"""
    SRC = {("*", NODE, "upstream"): "up", ("*", NODE, "downstream"): "down", ("minimum_delay_t", "id"): "min"}
    N = "scheduling_nodes"

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        if not path:
            return
        k = self.SRC.get(path[-1])
        size = self.prog.mod.types.layout(ins.ty)[0]
        if k:
            self.drop(st, lambda x: x[0] == "idx" and x[1] == val)
            self.add(st, ("idx", val, k, index(self.prog, addr, path, size)))
        elif path[-1][0] == "*" and path[-1][-1] == self.N:
            e.rel(st, val, ("c", 0), LT | GT)       # every number has its node
            i = index(self.prog, addr, path, size)
            while i[0] in ("zx", "tr"):
                i = i[1]
            src = [x for x in st.ps if x[0] == "idx" and x[1] == i]
            self.drop(st, lambda x: x[0] == "node" and x[1] == val)
            if src:
                self.add(st, ("node", val) + src[0][2:])
            else:
                self.add(st, ("node", val, "num", i))

    def nodes(self, st, kind=None):
        return [x for x in st.ps if x[0] == "node" and (kind is None or x[2] == kind)]

    def field(self, e, st, node, f):
        """current value of a scalar field of a node"""
        m = st.mem.get(flow.plus(node, fieldoff(self.prog, None, NODE, f)))
        return m[0] if m else None

    def tagf(self, e, st, node, f):
        return tagat(e, st, flow.plus(node, fieldoff(self.prog, None, NODE, f)))

    def quietcall(self, e, st, ins, name, args):
        """a call that writes a node's tags only where its code names the field (not through its local arrays of tags)"""
        mods = {x for l in (self.prog.modset(name) or {}).values() for p in l for x in p}
        keep = {a: m for a, m in st.mem.items()
                if m[1] and len(m[1]) > 1 and m[1][-2][0] == NODE and m[1][-2] not in mods and m[1][-1][0] == "tag_t"}
        e.default_call(st, ins, name, args)
        st.mem.update(keep)


class MinLoop(Nodes):
    """the loops that compute a minimum over the upstream nodes"""
    rule = "grant"
    KEEPENV = True
    K = 400

    def __init__(self, *a):
        super().__init__(*a)
        self.good = {}          # loop header -> pairs of phis that are a minimum
        self.mark = False

    def cand(self, e, st, ins, name, args):
        """is the call the bound from one upstream node? message if it is not computed from the right things"""
        raise NotImplementedError

    def excused(self, e, st):
        return False

    def call(self, e, st, ins, name, args):
        if name == self.CAND and ins.bb.name in e.inloop:
            v = e.fresh(st, ins)
            msg = self.cand(e, st, ins, name, args)
            if msg:
                self.report("cand", "%s() bounds at %s the tags that an upstream node may still send %s" %
                            (self.fn.name, ins.where(), msg), st, ins)
            self.add(st, ("cand", v))
            return [(st, v)]
        return self.call2(e, st, ins, name, args)

    def call2(self, e, st, ins, name, args):
        return None

    def header(self, e):
        """the outermost loops that contain a candidate"""
        out = set()
        for h, body in e.loops.items():
            if any(i.op == "call" and i.x == self.CAND for b in body for i in self.fn.blocks[b].ins):
                out.add(h)
        return {h for h in out if not any(h != g and h in e.loops[g] for g in out)}

    def edge(self, e, st, bb, succ):
        hs = getattr(e, "minheaders", None)
        if hs is None:
            hs = e.minheaders = self.header(e)
        f = self.fn
        for h in hs:
            body = e.loops[h]
            if succ == h:
                phis = f.blocks[h].phis
                inc = {i: e.ev(st, o) for i in phis for o, pb in i.x if pb == bb}
                old = {i: st.env.get(i.res, ("v", i.id)) for i in phis}
                T = [i for i in phis if i.ty == ("i", 64)]
                M = [i for i in phis if i.ty == ("i", 32)]
                ok = set()
                if bb in body:
                    self.sites += 1
                    cands = [x[1] for x in st.ps if x[0] == "cand"]
                    ex = not cands and self.excused(e, st)
                    for t in T:
                        for m in M:
                            new = (inc[t], inc[m])
                            if order(e, st, new, (old[t], old[m])) & GT:
                                continue
                            if cands and not all(not order(e, st, new, (("ex", c, 0), ("ex", c, 1))) & GT for c in cands):
                                continue
                            if cands or ex:
                                ok.add((t.res, m.res))
                    if not ok:
                        self.report("min", "%s() goes at %s to the next upstream node without having taken %s into account" %
                                    (self.fn.name, f.blocks[bb].ins[-1].where(),
                                     "the bound computed for this one" if cands else "this one"), st, None)
                    # the loop counter
                    for i in phis:
                        if i.ty[0] == "i":
                            d = [n for n in (1, -1) if inc[i] == flow.plus(old[i], n) or inc[i] == ("zx", flow.plus(old[i], n), 32)]
                            ok |= {("step", i.res, n, k) for n in d for k in (0, 1)}
                    self.drop(st, lambda x: x[0] in ("cand", "idx", "node"))
                else:
                    for t in T:
                        for m in M:
                            if inc[t] == FOREVER and isall(inc[m]):
                                ok.add((t.res, m.res))
                    for i in phis:
                        if inc[i] in (("c", 0), ("c", -1)):
                            ok.add(("step", i.res, 1, -inc[i][1]))
                        elif inc[i][0] != "c" and self.isnum(st, flow.plus(inc[i], 1)) or self.isnum(st, inc[i]):
                            ok.add(("step", i.res, -1, 0))
                self.good[h] = self.good[h] & ok if h in self.good else ok
            elif bb in body and succ not in body and self.mark:
                end = False
                for x in self.good.get(h, ()):
                    if x[0] != "step":
                        self.add(st, ("min", self.WHAT, st.env.get(x[0]), st.env.get(x[1])))
                        continue
                    i = st.env.get(x[1])
                    if i is None:
                        continue
                    if x[2] == 1:
                        i = flow.plus(i, x[3])
                        for v, p, s in st.mem.values():
                            if p and p[-1] == nf(self.NUM):
                                for a in (i, ("zx", i, 32)):
                                    if not e.pmask(st, a, v) & LT or not e.pmask(st, a, v, True) & LT:
                                        end = True
                    elif e.iv(st, i)[1] <= 0:
                        end = True
                if not end and not self.fn.blocks[succ].ins[-1].op == "unreachable":
                    self.report("end", "%s() leaves the loop over the upstream nodes at %s before the last" %
                                (self.fn.name, f.blocks[bb].ins[-1].where()), st, None)
                self.drop(st, lambda x: x[0] in ("cand", "idx", "node"))
        return True

    def isnum(self, st, v):
        return any(p and p[-1] == nf(self.NUM) and m == v for m, p, s in st.mem.values())

    def run2(self):
        """first find what is a minimum, then use it"""
        rep, self.rep = self.rep, Report()
        self.run()
        self.rep, self.mark, n = rep, True, self.sites
        if not any(x[0] != "step" for g in self.good.values() for x in g) or not self.good:
            # report why
            self.run()
            self.rep.violation("%s/nomin/%s" % (self.rule, self.fn.name),
                               "%s() does not compute the minimum over its upstream nodes" % self.fn.name)
            return self
        self.run()
        return self

    # helpers for candidates
    def same(self, e, st, args, node, f):
        T = self.tagf(e, st, node, f)
        return T == tuple(args)

    def elem(self, st, val, field, idx):
        """was val loaded from element idx of the array field of the node analysed?"""
        for a, (v, p, s) in st.mem.items():
            if v == val and p and p[-1][-1] == field and index(self.prog, a, p, s) == idx:
                return True
        return False


class Completed(MinLoop):
    """tag_advance_grant_if_safe: minimum of what the upstream nodes completed"""
    CAND, NUM, WHAT = "lf_delay_strict", "num_upstream", "ltc"

    def cand(self, e, st, ins, name, args):
        for x in self.nodes(st, "up"):
            if self.same(e, st, args[:2], x[1], "completed"):
                if not self.elem(st, args[2], "upstream_delay", x[3]):
                    return "with a delay other than that of the connection from it"
                return None
        return "from something other than what it completed"

    def excused(self, e, st):
        for x in self.nodes(st, "up"):
            s = self.field(e, st, x[1], "state")
            if s is not None and e.iv(st, s)[:2] == (NOT_CONNECTED, NOT_CONNECTED):
                return True
        return False

    def call2(self, e, st, ins, name, args):
        if name in ("earliest_future_incoming_message_tag", "eimt_strict", "is_in_zero_delay_cycle"):
            v = e.fresh(st, ins)
            if args and args[0] == ("arg", self.fn.args[-1]):
                self.drop(st, lambda x: x[0] == name)
                self.add(st, (name, v))
                # what this function does to the nodes does not change what was granted
                if self.bylt(e, st):
                    self.add(st, ("bylt",))
            self.quietcall(e, st, ins, name, args)
            return [(st, v)]
        return None

    def bylt(self, e, st):
        """is it known that what was completed upstream does not call for a grant?"""
        N, L = (self.tagf(e, st, ("arg", self.fn.args[-1]), f) for f in ("next_event", "last_granted"))
        Ms = [(x[2], x[3]) for x in st.ps if x[0] == "min"]
        return any(not order(e, st, M, L) & GT or not order(e, st, M, N) & (GT | EQ) for M in Ms)

    def ret(self, e, st, ins, val):
        if not self.mark:
            return
        self.sites += 1
        out, n = ("arg", self.fn.args[0]), ("arg", self.fn.args[-1])
        T = tagat(e, st, out)
        po = fieldoff(self.prog, None, "tag_advance_grant_t", "is_provisional")
        p = st.mem.get(flow.plus(out, po))
        prov = e.iv(st, p[0])[:2] if p else (0, 1)
        N, L, P = (self.tagf(e, st, n, f) for f in ("next_event", "last_granted", "last_provisionally_granted"))
        Ms = [(x[2], x[3]) for x in st.ps if x[0] == "min"]
        get = lambda nm: [(("ex", x[1], 0), ("ex", x[1], 1)) for x in st.ps if x[0] == nm]
        D, S = get("earliest_future_incoming_message_tag"), get("eimt_strict")
        Z = [x[1] for x in st.ps if x[0] == "is_in_zero_delay_cycle"]
        o = lambda A, B: order(e, st, A, B)
        zdc = lambda: any(truth(e, st, z) for z in Z)
        nozdc = lambda: any(truth(e, st, z) is False for z in Z)
        msg = None
        if T == NEVERT:
            bylt = ("bylt",) in st.ps or self.bylt(e, st)
            bynet = any(not o(d, N) & GT or not o(N, NEVERT) & GT or not o(d, P) & (GT | EQ) or not o(d, L) & GT for d in D)
            byzdc = any(not o(d, N) & EQ or not o(d, P) & GT or not o(d, L) & GT for d in D) or nozdc() or \
                any(not o(s, N) & GT for s in S)
            if not (bylt and bynet and byzdc):
                msg = "no grant although it was not found that none is due"
        elif prov == (1, 1):
            if not (T == N and any(o(d, N) == EQ for d in D) and any(o(s, N) == GT for s in S) and zdc()):
                msg = "a provisional grant without having found that the earliest tag of a message that may still arrive is "\
                      "that of the next event, through a zero-delay cycle only"
        elif prov != (0, 0):
            msg = "a grant that may be provisional or not"
        elif T in Ms:
            if o(T, L) != GT or o(T, N) & LT:
                msg = "the tag completed upstream although it was not found to be later than the last grant and to cover the "\
                      "next event"
        elif T == N:
            if not (any(o(d, N) == GT for d in D) and o(N, NEVERT) == GT):
                msg = "a grant for the next event without having found that no message with that tag or an earlier one can "\
                      "still arrive"
        else:
            msg = "a grant for a tag that is neither the next event's nor the minimum of what was completed upstream"
        if msg:
            self.report("result", "%s() returns at %s %s" % (self.fn.name, ins.where(), msg), st, ins)


class Ret(MinLoop):
    """the function returns the minimum"""
    def ret(self, e, st, ins, val):
        if self.mark:
            self.sites += 1
            if (part(val, 0), part(val, 1)) not in [(x[2], x[3]) for x in st.ps if x[0] == "min"]:
                self.report("result", "%s() returns at %s something other than the minimum over the upstream nodes" %
                            (self.fn.name, ins.where()), st, ins)

    def heard(self, e, st, node):
        """a node that was not heard from may send messages from the start time on"""
        T = self.tagf(e, st, node, "next_event")
        return any(p == (("@", "start_time"),) and v == T[0] for v, p, s in st.mem.values()) or \
            not order(e, st, T, NEVERT) & EQ


class Earliest(Ret):
    """earliest_future_incoming_message_tag"""
    CAND, NUM, WHAT = "lf_tag_add", "num_min_delays", "eimt"

    def cand(self, e, st, ins, name, args):
        for x in self.nodes(st, "min"):
            if self.same(e, st, args[:2], x[1], "next_event"):
                for a, (v, p, s) in st.mem.items():
                    if v == args[2] and p and ("minimum_delay_t", "min_delay") in p and index(self.prog, a, p, s) == x[3]:
                        if not self.heard(e, st, x[1]):
                            return "although its next event may never have been reported"
                        return None
                return "with a delay other than the least from it"
        return "from something other than its next event"


class Strict(Ret):
    """eimt_strict"""
    CAND, NUM, WHAT = "lf_delay_tag", "num_upstream", "strict"

    def call2(self, e, st, ins, name, args):
        if name in ("earliest_future_incoming_message_tag", "is_in_zero_delay_cycle"):
            v = e.fresh(st, ins)
            self.drop(st, lambda x: x[0] == name and (x[1] == v or x[2] == args[0]))
            self.add(st, (name, v, args[0]))
            self.quietcall(e, st, ins, name, args)
            return [(st, v)]
        return None

    def excused(self, e, st):
        for x in self.nodes(st, "up"):
            for y in st.ps:
                if y[0] == "is_in_zero_delay_cycle" and y[2] == x[1] and truth(e, st, y[1]):
                    return True
        return False

    def cand(self, e, st, ins, name, args):
        A = tuple(args[:2])
        for x in self.nodes(st, "up"):
            ds = [y for y in st.ps if y[0] == "earliest_future_incoming_message_tag" and y[2] == x[1]]
            if not self.elem(st, args[2], "upstream_delay", x[3]):
                return "with a delay other than that of the connection from it"
            for d in ds:
                if order(e, st, A, (("ex", d[1], 0), ("ex", d[1], 1))) & GT:
                    return "without regard to what it may still receive itself"
            if not ds:
                return "without regard to what it may still receive itself"
            # the value that next_event had: a later call may have overwritten it
            N = self.tagf(e, st, x[1], "next_event")
            if None in N:
                return "without regard to its next event"
            if order(e, st, A, N) & GT:
                return "although its next event may be earlier"
            return None
        return "from something other than its next event"


def grants(config, tier, rep):
    prog = program(config)
    n = 0
    for name, cls in (("tag_advance_grant_if_safe", Completed), ("earliest_future_incoming_message_tag", Earliest),
                      ("eimt_strict", Strict)):
        n += cls(prog, anchor(prog, name), rep).run2().sites
    rep.count("iterations and results analysed", n)
