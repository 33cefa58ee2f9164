"""Rules about what the coordinator sends, and when: grants, re-evaluation of those who wait, the start time, the stop tag."""
import re
from .. import build
from .rti import *
from .locks import LOCK, UNLOCK

TAGF = ("completed", "last_granted", "last_provisionally_granted", "next_event")
_macros = {}


def macro(name):
    """value of a message type"""
    if not _macros:
        with open(build.REPO + "/include/core/federated/network/net_common.h") as f:
            for m in re.finditer(r"^\s*#\s*define\s+(\w+)\s+\(?(0[xX][0-9a-fA-F]+|\d+)\)?\s*(?://.*|/\*.*)?$", f.read(), re.M):
                _macros[m.group(1)] = int(m.group(2), 0)
    if name not in _macros:
        raise AnalysisBroken("no constant %s in net_common.h" % name)
    return _macros[name]


def strip(v):
    while v[0] in ("zx", "tr", "sx"):
        v = v[1]
    return v


class Fields(Nodes):
    """calls wrote(e, st, ins, node, field, old, new) when a tag of a node was written, and stored() for other fields"""
    KEEPENV = True
    K = 64
    rule = "rti"

    def wrote(self, e, st, ins, node, field, old, new):
        pass

    def stored(self, e, st, ins, node, field, val):
        pass

    def off(self, f, s=NODE):
        return fieldoff(self.prog, None, s, f)

    def tagpart(self, path, addr):
        if path and len(path) >= 2 and path[-1][0] == "tag_t" and path[-2][0] == NODE and path[-2][1] in TAGF:
            n = flow.plus(addr, -self.off(path[-2][1]) - (8 if path[-1][1] == "microstep" else 0))
            if n[0] != "+" or n[2] % 8 == 0:        # not padding
                return path[-2][1], n
        return None, None

    def store(self, e, st, ins, addr, path, val):
        f, n = self.tagpart(path, addr)
        if f:
            self.flush(e, st, keep=(f, n))
            if not any(x[0] == "half" and x[1:3] == (f, n) for x in st.ps):
                self.add(st, ("half", f, n, self.tagf(e, st, n, f), ins.id))
            return
        self.flush(e, st)
        if path and path[-1][0] == NODE:
            self.stored(e, st, ins, flow.plus(addr, -self.off(path[-1][1])), path[-1][1], val)

    def flush(self, e, st, keep=None):
        for x in [x for x in st.ps if x[0] == "half" and x[1:3] != keep]:
            self.drop(st, lambda y: y == x)
            self.wrote(e, st, self.prog.atom_ins(x[4]), x[2], x[1], x[3], self.tagf(e, st, x[2], x[1]))

    def edge(self, e, st, bb, succ):
        self.flush(e, st)
        return True

    def call(self, e, st, ins, name, args):
        self.flush(e, st)
        if name and name.startswith(("llvm.memcpy", "memcpy")):
            p, t = self.prog.pinfo(self.fn, ins.ops[0])
            if p and p[-1][0] == NODE and p[-1][1] in TAGF:
                n = flow.plus(args[0], -self.off(p[-1][1]))
                old = self.tagf(e, st, n, p[-1][1])
                e.memop(st, ins, name, args)
                self.wrote(e, st, ins, n, p[-1][1], old, self.tagf(e, st, n, p[-1][1]))
                return [(st, ("undef",))]
        return self.call2(e, st, ins, name, args)

    def call2(self, e, st, ins, name, args):
        return None

    def ret(self, e, st, ins, val):
        self.flush(e, st)

    def quiet(self, e, st, ins, name, args):
        v = e.fresh(st, ins) if ins.res is not None else ("undef",)
        self.quietcall(e, st, ins, name, args)
        return v

    def known(self, e, st, node, f):
        """interval of an integer field"""
        v = self.field(e, st, node, f)
        return e.iv(st, v)[:2] if v is not None else (-flow.INF, flow.INF)

    def isnot(self, e, st, node, f, n):
        v = self.field(e, st, node, f)
        return v is not None and not e.pmask(st, v, ("c", n)) & EQ


def sure(e, st, v):
    """is a boolean (however represented) known?"""
    for x in (v, strip(v)):
        t = truth(e, st, x)
        if t is not None:
            return t
        lo, hi, ne = e.iv(st, x)
        if lo == hi == 0:
            return False
        if lo > 0 or hi < 0 or 0 in ne:
            return True
    for k, b in st.facts.items():
        if k[0] == "B" and strip(k[1]) == strip(v):
            return b
    return None


ENCODE = {"encode_int64": (1, 8), "encode_int32": (1, 4), "encode_uint32": (1, 4), "encode_uint16": (1, 2), "encode_tag": (0, 12)}


class Each(Fields):
    """loops that have to do something for every element of a list: iteration() says what is missing"""
    ACTIONS = ()
    NUM = ()
    what = "neighbours"

    def iteration(self, e, st, idx):
        """idx: does this index belong to the iteration? returns what was not done, or None"""
        return None

    def each(self, e, st, h, idx):
        return self.iteration(e, st, idx)

    def nostep(self, h):
        return "without advancing by one element"

    def finished(self, e, st, h):
        pass

    def encode(self, e, st, ins, name, args):
        """a number put into a buffer: ("enc", address, value)"""
        k, n = ENCODE[name]
        b = args[k]
        within = lambda a: any(flow.plus(b, i) == a for i in range(n))
        self.drop(st, lambda x: x[0] == "enc" and within(x[1]))
        if name == "encode_tag":
            self.add(st, ("enc", b, args[1]), ("enc", flow.plus(b, 8), args[2]))
        else:
            self.add(st, ("enc", b, args[0]))
        keep = {a: m for a, m in st.mem.items() if not within(a)}
        e.default_call(st, ins, name, args)
        st.mem.update(keep)
        return [(st, ("undef",))]

    def headers(self, e):
        out = set()
        for h, body in e.loops.items():
            if any(i.op == "call" and self.isaction(i) for b in body for i in self.fn.blocks[b].ins):
                out.add(h)
        # the innermost loop around each action
        return {h for h in out if not any(g != h and g in e.loops[h] for g in out)}

    def isaction(self, i):
        return i.x in self.ACTIONS

    def edge(self, e, st, bb, succ):
        self.flush(e, st)
        hs = getattr(e, "eachheaders", None)
        if hs is None:
            hs = e.eachheaders = self.headers(e)
            self.nloops = len(hs)
        f = self.fn
        if succ in e.loops and bb in e.loops[succ] and succ not in hs:
            self.leave(e, st, succ, False)
        for h in hs:
            body = e.loops[h]
            if succ == h and bb in body:
                self.sites += 1
                steps = []
                for i in f.blocks[h].phis:
                    if i.ty[0] != "i":
                        continue
                    old = st.env.get(i.res, ("v", i.id))
                    inc = [e.ev(st, o) for o, pb in i.x if pb == bb][0]
                    for d in (1, -1):
                        if strip(inc) == flow.plus(strip(old), d):
                            steps.append((old, d))
                idx = lambda x: any(strip(x) == flow.plus(strip(o), k) for o, d in steps for k in (-1, 0, 1))
                msg = self.each(e, st, h, idx) if steps else self.nostep(h)
                if msg:
                    self.report("each", "%s() goes at %s to the next of the %s %s" %
                                (f.name, f.blocks[bb].ins[-1].where(), self.what, msg), st, None)
                self.leave(e, st, h)
            elif succ == h:
                self.drop(st, lambda x: x[0] == "init" and x[1] == h)
                for i in f.blocks[h].phis:
                    for o, pb in i.x:
                        if pb == bb:
                            v = e.ev(st, o)
                            if v in (("c", 0), ("c", -1)):
                                self.add(st, ("init", h, i.res, 1, -v[1]))
                            elif self.isnum(st, flow.plus(v, 1)) or self.isnum(st, v):
                                self.add(st, ("init", h, i.res, -1, 0))
                self.leave(e, st, h)
            elif bb in body and succ not in body:
                end = False
                for x in st.ps:
                    if x[0] == "init" and x[1] == h:
                        i = st.env.get(x[2])
                        if i is None:
                            continue
                        if x[3] == -1:
                            end |= e.iv(st, i)[1] <= 0
                            continue
                        i = flow.plus(i, x[4])
                        for v, p, s in st.mem.values():
                            if p and p[-1] in self.NUM:
                                for a in (i, ("zx", i, 32), ("sx", i, 32)):
                                    for b in (v, strip(v), ("zx", v, 16)):
                                        for u in (False, True):
                                            end |= not e.pmask(st, a, b, u) & LT
                if not end and self.fn.blocks[succ].ins[-1].op != "unreachable":
                    self.early(e, st, bb, succ)
                elif end:
                    self.finished(e, st, h)
                self.leave(e, st, h)
        return True

    def leave(self, e, st, h, did=True):
        """forget what was noted about the elements of one iteration"""
        def inside(v):
            i = self.prog.atom_ins(v[1]) if v[0] == "v" else None
            return i is None or i.bb.name in e.loops[h]
        self.drop(st, lambda x: x[0] in ("idx", "node") and inside(x[1]) or did and x[0] == "did" and inside(x[2]))

    def early(self, e, st, bb, succ):
        self.report("end", "%s() leaves the loop over the %s at %s before the last" %
                    (self.fn.name, self.what, self.fn.blocks[bb].ins[-1].where()), st, None)

    def isnum(self, st, v):
        return any(p and p[-1] in self.NUM and m == v for m, p, s in st.mem.values())

    def index_of(self, st, node):
        return [x[3] for x in st.ps if x[0] == "node" and x[1] == node]


# ---------------------------------------------------------------------------------------------------------------------
class Visit(Each):
    """notify_downstream_advance_grant_if_safe: whoever is downstream and was not visited is looked at, and so is whoever
    is downstream of it"""
    rule = "reeval"
    ACTIONS = ("notify_advance_grant_if_safe", "notify_downstream_advance_grant_if_safe")
    NUM = (nf("num_downstream"),)
    what = "downstream nodes"

    def call2(self, e, st, ins, name, args):
        if name in self.ACTIONS:
            v = self.quiet(e, st, ins, name, args)
            # what it does to e does not include its neighbours
            self.add(st, ("did", name, args[0]))
            return [(st, v)]

    def iteration(self, e, st, idx):
        did = {(x[1], x[2]) for x in st.ps if x[0] == "did"}
        for n, k, i in [x[1:4] for x in st.ps if x[0] == "node" and x[2] == "down"]:
            if not idx(i):
                continue
            if (self.ACTIONS[0], n) in did and ((self.ACTIONS[1], n) in did or self.known(e, st, n, "num_downstream")[1] <= 0):
                return None
            if not any(x == n for _, x in did) and self.visited(e, st, n):
                return None
        return "without checking whether this one, and those downstream of it, can be granted an advance"

    def visited(self, e, st, n):
        num = [self.field(e, st, n, "id")] + \
            [x[1] for x in st.ps if x[0] == "idx" for y in st.ps if y[0] == "node" and y[1] == n and y[2:] == x[2:]]
        num = {strip(x) for x in num if x is not None}
        for a, (v, p, s) in st.mem.items():
            if flow.root(a) == ("arg", self.fn.args[-1]) and a[0] == "ix" and strip(a[2]) in num and sure(e, st, v):
                return True
        return False


class Reeval(Visit):
    """whoever raises what bounds the messages of a node lets those downstream of it advance before releasing the lock"""
    def visited(self, e, st, n):
        return False

    def wrote(self, e, st, ins, node, field, old, new):
        if field not in ("completed", "next_event") or new == NEVERT:
            return
        self.sites += 1
        if field == "next_event":
            if not order(e, st, new, old) & GT:
                return
            if old[0] is not None and not order(e, st, old, NEVERT) & ~EQ & 7 and self.isstart(st, new):
                return          # a node that was not heard from is treated as if it had said so anyway
        self.add(st, ("dirty", node, field, ins.id))

    def isstart(self, st, T):
        return T[1] == ("c", 0) and any(p == (("@", "start_time"),) and v == T[0] for v, p, s in st.mem.values())

    def call2(self, e, st, ins, name, args):
        if name == "notify_downstream_advance_grant_if_safe":
            self.drop(st, lambda x: x[0] == "dirty" and x[1] == args[0])
            N = self.tagf(e, st, args[0], "next_event")
            s = self.field(e, st, args[0], "state")
            if s is not None and e.iv(st, s)[:2] == (NOT_CONNECTED, NOT_CONNECTED) and N[0] == FOREVER and isall(N[1]):
                self.add(st, ("gone", args[0]))
        if name in UNLOCK:
            self.check(e, st, ins)
        return super().call2(e, st, ins, name, args)

    def finished(self, e, st, h):
        # of the node whose downstream list was traversed
        for a, (v, p, s) in st.mem.items():
            if p and p[-1] == nf("num_downstream"):
                n = flow.plus(a, -self.off("num_downstream"))
                self.drop(st, lambda x: x[0] == "dirty" and x[1] == n)

    def check(self, e, st, ins):
        for x in st.ps:
            if x[0] == "dirty" and self.known(e, st, x[1], "num_downstream")[1] > 0:
                w = self.prog.atom_ins(x[3])
                self.report("stale/" + x[2], "%s() changes at %s what a node may still send (%s), but does not check by %s whether "
                            "those downstream of it can now be granted an advance" %
                            (self.fn.name, w.where(), x[2], ins.where()), st, ins)

    def ret(self, e, st, ins, val):
        self.flush(e, st)
        self.check(e, st, ins)


class Ended(Reeval):
    """when the thread that serves a federate ends, nobody waits for that federate any more"""
    def check(self, e, st, ins):
        pass

    def ret(self, e, st, ins, val):
        self.flush(e, st)
        self.sites += 1
        if not any(x[0] == "gone" for x in st.ps):
            self.report("gone", "%s() stops serving a federate at %s without having let those downstream of it advance past "
                        "it (not connected, no further events, then grants re-evaluated)" % (self.fn.name, ins.where()), st, ins)


def stores_field(prog, fields, owner=NODE):
    out = []
    for f in prog.mod.funcs.values():
        for i in f.instrs():
            p = None
            if i.op == "store" and i.ops[0][0] != "undef":
                p = prog.access(i)[0]
            elif i.op == "call" and i.x and i.x.startswith(("llvm.memcpy", "memcpy")):
                p = prog.pinfo(f, i.ops[0])[0]
            if p and any(x[0] == owner and x[1] in fields for x in p):
                out.append(f)
                break
    return out


INITS = {"initialize_scheduling_node": "no thread knows the node yet"}


def reeval(config, tier, rep):
    prog = program(config)
    c = Visit(prog, anchor(prog, "notify_downstream_advance_grant_if_safe"), rep).run()
    rep.need("loop over the downstream nodes", c.nloops, 1)
    n = 0
    fns = [f for f in stores_field(prog, ("completed", "next_event")) if f.name not in INITS]
    for f in fns:
        n += Reeval(prog, f, rep).run().sites
    rep.need("changes of a federate's bounds", n, 4)
    rep.count("paths on which a node's bounds change", n)
    rep.count("functions that change a node's bounds", len(fns))
    e = Ended(prog, anchor(prog, "federate_info_thread_TCP"), rep).run()
    rep.count("ways the thread of a federate ends", e.sites)


# ---------------------------------------------------------------------------------------------------------------------
GRANTS = {"MSG_TYPE_TAG_ADVANCE_GRANT": "last_granted", "MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT": "last_provisionally_granted"}
WRITES = {"write_to_socket": (0, 1, 2), "write_to_socket_close_on_error": (0, 1, 2), "write_to_socket_fail_on_error": (0, 1, 2)}


def sent(e, st, args):
    """first byte of what a write to a socket sends, if it is known"""
    m = st.mem.get(args[2])
    return m[0][1] & 255 if m and m[0][0] == "c" else None


class Sends(Each):
    """grants are sent to whoever is connected and got the start time, in increasing order, and recorded"""
    rule = "sends"
    ACTIONS = ("notify_tag_advance_grant", "notify_provisional_tag_advance_grant")
    NUM = (nf("num_upstream"),)
    what = "upstream nodes"

    def node(self, e, st, sock):
        """the node whose socket this is"""
        so = self.off("socket", "federate_info_t")
        for a, (v, p, s) in st.mem.items():
            if v == sock and p and p[-1] == ("federate_info_t", "socket"):
                return flow.plus(a, -so)
            if a == sock and p and p[-1] == ("federate_info_t", "socket"):
                return flow.plus(a, -so)
        if sock[0] == "+" and sock[2] == so:
            return flow.plus(sock, -so)
        return None

    def call2(self, e, st, ins, name, args):
        if name in ENCODE:
            return self.encode(e, st, ins, name, args)
        if name in WRITES:
            kind = sent(e, st, args)
            for m, f in GRANTS.items():
                if kind == macro(m):
                    return self.granting(e, st, ins, name, args, f)
        if name in ("earliest_future_incoming_message_tag", "eimt_strict") and self.other(st, args[0]):
            v = self.quiet(e, st, ins, name, args)
            self.drop(st, lambda x: x[0] == "bound" and x[1:3] == (name, args[0]))
            self.add(st, ("bound", name, args[0], v))
            return [(st, v)]
        if name in self.ACTIONS and self.other(st, args[0]):
            self.add(st, ("did", name, args[0], tuple(args[1:])))
        return None

    def other(self, st, n):
        return any(x[1] == n for x in st.ps if x[0] == "node")

    def granting(self, e, st, ins, name, args, f):
        self.sites += 1
        n = self.node(e, st, args[0])
        b = flow.plus(args[2], 1)
        enc = {x[1]: x[2] for x in st.ps if x[0] == "enc"}
        T = (enc.get(b), enc.get(flow.plus(b, 8)))
        bad = None
        if n is None:
            bad = "to a socket that is not known to be a federate's"
        elif None in T:
            bad = "without the tag"
        elif not self.isnot(e, st, n, "state", NOT_CONNECTED):
            bad = "to a federate that may not be connected"
        elif not self.isnot(e, st, n, "state", PENDING):
            bad = "to a federate that may not have got the start time yet"
        else:
            L, P = self.tagf(e, st, n, "last_granted"), self.tagf(e, st, n, "last_provisionally_granted")
            if order(e, st, T, L) != GT:
                bad = "for a tag that is not known (when it is sent) to be later than the last one granted"
            elif order(e, st, T, P) & (LT if f == "last_granted" else LT | EQ):
                bad = "for a tag that is not known (when it is sent) to be later than the last one granted provisionally"
        if bad:
            self.report("order/" + f, "%s() sends a grant at %s %s" % (self.fn.name, ins.where(), bad), st, ins)
        v = e.fresh(st, ins)
        self.add(st, ("sent", f, n, T, v, ins.id))
        return [(st, v)]

    def wrote(self, e, st, ins, node, field, old, new):
        if field not in GRANTS.values() or new == NEVERT:
            return
        self.sites += 1
        for x in st.ps:
            if x[0] == "sent" and x[1] == field and x[2] == node and x[3] == new and e.iv(st, x[4])[:2] == (0, 0):
                self.drop(st, lambda y: y == x)
                return
        if field == "last_granted" and self.known(e, st, node, "num_upstream")[1] <= 0:
            return
        self.report("record/" + field, "%s() records at %s a grant that was not just sent to that federate" %
                    (self.fn.name, ins.where()), st, ins)

    def stored(self, e, st, ins, node, field, val):
        if field == "state" and val == ("c", NOT_CONNECTED):
            self.drop(st, lambda x: x[0] == "sent" and x[2] == node and sure(e, st, x[4]) is not False)

    def ret(self, e, st, ins, val):
        self.flush(e, st)
        for x in st.ps:
            if x[0] == "sent":
                self.report("norecord/" + x[1], "%s() returns at %s without having recorded %s" % (self.fn.name, ins.where(),
                            "the grant it sent" if e.iv(st, x[4])[:2] == (0, 0) else
                            "that the federate a grant could not be sent to is gone"), st, ins)

    # a provisional grant also goes to those upstream
    def iteration(self, e, st, idx):
        if self.fn.name != "notify_provisional_tag_advance_grant":
            return None
        T = (("arg", self.fn.args[1]), ("arg", self.fn.args[2]))
        for n, k, i in [x[1:4] for x in st.ps if x[0] == "node" and x[2] == "up"]:
            if not idx(i):
                continue
            if self.known(e, st, n, "state") == (NOT_CONNECTED, NOT_CONNECTED):
                return None
            b = {x[1]: (("ex", x[3], 0), ("ex", x[3], 1)) for x in st.ps if x[0] == "bound" and x[2] == n}
            E, S = b.get("earliest_future_incoming_message_tag"), b.get("eimt_strict")
            did = [(x[1], x[3]) for x in st.ps if x[0] == "did" and x[2] == n]
            tag, ptag = [(a, T) in did for a in self.ACTIONS]
            if len(did) > tag + ptag:
                return "after having granted it another tag"
            o = order(e, st, E, T) if E else 7
            s = order(e, st, S, T) if S else 7
            if tag:
                if not o & (LT | EQ):
                    return None
                return "after having granted it the tag although a message with that tag may still arrive"
            if ptag:
                if o == EQ and s == GT:
                    return None
                return "after having granted it the tag provisionally although that was not found to be safe"
            if not o & GT and (not o & EQ or not s & GT):
                return None
        return "without checking whether this one needs a grant too"


def sends(config, tier, rep):
    prog = program(config)
    n = 0
    fns = {f.name: f for f in stores_field(prog, GRANTS.values()) if f.name not in INITS}
    for nm in Sends.ACTIONS:
        fns[nm] = anchor(prog, nm)
    for f in fns.values():
        c = Sends(prog, f, rep).run()
        n += c.sites
        if f.name == Sends.ACTIONS[1]:
            rep.need("loop over the upstream nodes", c.nloops, 1)
    rep.count("functions that grant", len(fns))
    rep.count("paths to a grant, or to its record", n)
