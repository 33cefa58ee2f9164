"""Rules about the messages that pass through the coordinator."""
from .rti3 import *

QUEUE = (FED, "in_transit_message_tags")


def lin(v, k=1, out=None):
    """linear form: {atom: coefficient}, the constant under None"""
    out = {} if out is None else out
    if v[0] == "c":
        out[None] = out.get(None, 0) + k * v[1]
    elif v[0] == "+":
        lin(v[1], k, out)
        out[None] = out.get(None, 0) + k * v[2]
    elif v[0] == "bin" and v[1] in ("add", "sub"):
        lin(v[2], k, out)
        lin(v[3], k if v[1] == "add" else -k, out)
    else:
        out[v] = out.get(v, 0) + k
    return out


def same(*parts):
    """do the parts (coefficient, expression) add up to nothing?"""
    out = {}
    for k, v in parts:
        lin(v, k, out)
    return not any(x % (1 << 64) for x in out.values())


class Relay(Agree):
    """what is read from one federate is written, entirely and in order, to the one it is addressed to"""
    rule = "relay"
    timed = True
    HDR = 21

    def before(self, e):
        self.accs = getattr(self, "accs", {})
        self.nloops = 0

    def run(self):
        # first find what counts the bytes, then use it
        rep, self.rep = self.rep, Report()
        self.run1()
        self.rep, self.sites = rep, 0
        return self.run1()

    def run1(self):
        en = flow.Engine(self.prog, self.fn, self)
        self.before(en)
        # the first byte was read by the caller
        en.run([en.start(frozenset({("pend", ("arg", self.fn.args[1]), ("c", 1)), ("sum", ("c", 1))}))])
        return self

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        for x in self.get(st, "hdr"):
            if addr == x[2]:
                self.add(st, ("L", val))
            elif addr == x[1]:
                self.add(st, ("dst", val))

    def isdest(self, st, n):
        """is the node the one that the header names?"""
        d = {strip(x[1]) for x in self.get(st, "dst")}
        return any(x[1] == n and x[2] == "num" and strip(x[3]) in d for x in self.get(st, "node"))

    def tags(self, e, st):
        out = [tagat(e, st, x[3]) for x in self.get(st, "hdr")]
        return out + [(("ex", x[1], 0), ("ex", x[1], 1)) for x in self.get(st, "got")]

    def total(self, st):
        return [flow.plus(x[1], self.HDR) for x in self.get(st, "L")] if self.timed else [("c", 17)]

    def call3(self, e, st, ins, name, args):
        if name in READS:
            self.sites += 1
            sock, n, b = args[:3]
            self.checksock(e, st, ins, name, sock, ("arg", self.fn.args[0]), "reads from")
            pend = self.get(st, "pend")
            self.drop(st, lambda x: x[0] in ("pend",))
            old = pend[0] if pend else None
            if old and self.get(st, "drop"):
                old = None
            if old is None:
                self.add(st, ("pend", b, n))
            elif self.ends(e, st, old, b):
                self.add(st, ("pend", old[1], e.binop("add", old[2], n, ins)))
            else:
                self.report("lost", "%s() reads at %s over bytes, or past bytes, that it has not passed on" %
                            (self.fn.name, ins.where()), st, ins)
                self.add(st, ("pend", b, n))
            s = self.get(st, "sum")
            self.drop(st, lambda x: x[0] == "sum")
            if s:
                self.add(st, ("sum", e.binop("add", s[0][1], n, ins)))
            self.add(st, ("chunk", n))
            e.default_call(st, ins, name, args)
            return [(st, e.fresh(st, ins) if ins.res is not None else ("undef",))]
        if name in WRITES:
            self.sites += 1
            sock, n, b = args[:3]
            node = Sends.node(self, e, st, sock)
            if node is None:
                node = self.address(sock)
            bad = None
            if node is None or not self.isdest(st, node):
                bad = "to a socket other than that of the federate it is addressed to"
            elif not any(x[0] == "to" and x[1] == node for x in st.ps):
                if not self.isnot(e, st, node, "state", PENDING):
                    bad = "to a federate that may not have got the start time yet"
                elif not self.isnot(e, st, node, "state", NOT_CONNECTED):
                    bad = "to a federate that may have gone"
                self.add(st, ("to", node))
            pend = self.get(st, "pend")
            if not bad and (not pend or pend[0][1] != b or not same((1, pend[0][2]), (-1, n))):
                bad = "other bytes than the ones it read since the last time"
            if bad:
                self.report("write", "%s() passes on at %s %s" % (self.fn.name, ins.where(), bad), st, ins)
            self.drop(st, lambda x: x[0] == "pend")
            return [(st, e.fresh(st, ins) if ins.res is not None else ("undef",))]
        if name == "extract_timed_header":
            e.default_call(st, ins, name, args)
            self.add(st, ("hdr", args[2], args[3], args[4]))
            return [(st, ("undef",))]
        if name == "extract_uint16":
            v = e.fresh(st, ins)
            # the destination follows the number of the port
            if args[0] == flow.plus(("arg", self.fn.args[1]), 3):
                self.add(st, ("dst", v))
            return [(st, v)]
        if name == "pqueue_tag_insert_if_no_match":
            if self.to(e, st, args[0], QUEUE):
                if tuple(args[1:3]) not in self.tags(e, st):
                    self.report("transit", "%s() records at %s a message in transit with a tag other than its own" %
                                (self.fn.name, ins.where()), st, ins)
                self.add(st, ("recorded",))
        if name == "update_federate_next_event_tag_locked":
            if strip(args[0]) in {strip(x[1]) for x in self.get(st, "dst")} and tuple(args[1:3]) in self.tags(e, st):
                v = self.quiet(e, st, ins, name, args)
                self.add(st, ("lowered",))
                return [(st, v)]
        return None

    def to(self, e, st, v, field):
        """was v loaded from this field of the node written to?"""
        for a, (x, p, s) in st.mem.items():
            if x == v and p and p[-1] == field:
                return ("to", flow.plus(a, -self.off(field[1], FED))) in st.ps
        return False

    def address(self, sock):
        o = self.off("socket", FED)
        return flow.plus(sock, -o)

    def checksock(self, e, st, ins, name, sock, node, what):
        if not (sock == flow.plus(node, self.off("socket", FED)) or Sends.node(self, e, st, sock) == node):
            self.report("from", "%s() %s at %s another socket than the sender's" % (self.fn.name, what, ins.where()), st, ins)

    def ends(self, e, st, pend, b):
        """does b directly follow the bytes read?"""
        end = flow.plus(pend[1], pend[2][1]) if pend[2][0] == "c" else None
        return end is not None and end == b

    # -- the loop over the rest ---------------------------------------------------------------------------------------
    def headers(self, e):
        out = set()
        for h, body in e.loops.items():
            if any(i.op == "call" and i.x in READS for b in body for i in self.fn.blocks[b].ins):
                out.add(h)
        return out

    def edge(self, e, st, bb, succ):
        self.flush(e, st)
        hs = getattr(e, "relayheaders", None)
        if hs is None:
            hs = e.relayheaders = self.headers(e)
            self.nloops = len(hs)
        f = self.fn
        for h in hs:
            body = e.loops[h]
            if succ == h:
                ok = set()
                s, ch = self.get(st, "sum"), self.get(st, "chunk")
                for i in f.blocks[h].phis:
                    op = [o for o, pb in i.x if pb == bb][0]
                    v = e.ev(st, op)
                    if bb in body:
                        old = st.env.get(i.res, ("v", i.id))
                        d = f.defs.get(op[1]) if op[0] == "%" else None
                        if len(ch) == 1 and d is not None and d.op in ("add", "sub"):
                            x, y = (e.ev(st, o) for o in d.ops)
                            if d.op == "add" and {x, y} == {old, ch[0][1]}:
                                ok.add((i.res, "up"))
                            if d.op == "sub" and (x, y) == (old, ch[0][1]):
                                ok.add((i.res, "down"))
                    elif s:
                        if same((1, v), (-1, s[0][1])):
                            ok.add((i.res, "up"))
                        if any(same((1, t), (-1, s[0][1]), (-1, v)) for t in self.total(st)):
                            ok.add((i.res, "down"))
                if bb in body and self.get(st, "pend") and not self.get(st, "drop") and self.get(st, "to"):
                    self.report("each", "%s() reads at %s more without having passed on what it read" %
                                (f.name, f.blocks[bb].ins[-1].where()), st, None)
                self.accs[h] = self.accs[h] & ok if h in self.accs else ok
                self.drop(st, lambda x: x[0] in ("chunk", "sum"))
                if self.get(st, "to"):
                    self.drop(st, lambda x: x[0] == "pend")
                else:
                    self.add(st, ("drop",))
            elif bb in body and succ not in body and self.fn.blocks[succ].ins[-1].op != "unreachable":
                self.drop(st, lambda x: x[0] in ("chunk", "sum", "done"))
                for r, k in self.accs.get(h, ()):
                    v = st.env.get(r)
                    if v is None:
                        continue
                    if k == "up" and any(not e.pmask(st, v, t, True) & LT for t in self.total(st)) or \
                            k == "down" and (not e.pmask(st, v, ("c", 0), True) & GT or e.iv(st, v)[:2] == (0, 0)):
                        self.add(st, ("done",))
        return True

    def release(self, e, st, ins, what):
        if what == "waits":
            if self.get(st, "to"):
                self.report("wait", "%s() waits at %s in the middle of a message" % (self.fn.name, ins.where()), st, ins)
            return
        if not self.get(st, "to"):
            return
        self.finish(e, st, ins)
        node = self.get(st, "to")[0][1]
        if self.timed:
            T = self.tags(e, st)
            C, N = self.tagf(e, st, node, "completed"), self.tagf(e, st, node, "next_event")
            if ("recorded",) not in st.ps and not any(not order(e, st, C, t) & LT for t in T):
                self.report("unrecorded", "%s() unlocks at %s without having recorded the message as in transit" %
                            (self.fn.name, ins.where()), st, ins)
            if ("lowered",) not in st.ps and not any(not order(e, st, t, N) & LT for t in T):
                self.report("next", "%s() unlocks at %s although the destination's next event may be later than the message" %
                            (self.fn.name, ins.where()), st, ins)

    def finish(self, e, st, ins):
        if ("finished",) in st.ps:
            return
        self.add(st, ("finished",))
        s = self.get(st, "sum")
        if ("done",) not in st.ps and not (s and any(same((1, s[0][1]), (-1, t)) for t in self.total(st))):
            self.report("part", "%s() is done at %s although there may be more of the message to read" %
                        (self.fn.name, ins.where()), st, ins)
        if self.get(st, "to") and self.get(st, "pend"):
            self.report("unsent", "%s() is done at %s although it did not pass on everything" % (self.fn.name, ins.where()), st, ins)

    def ret(self, e, st, ins, val):
        self.sites += 1
        self.finish(e, st, ins)
        if not self.get(st, "to"):
            # dropped: only if the destination is gone
            if ("gone",) not in st.ps:
                self.report("dropped", "%s() returns at %s without having passed on the message although its destination "
                            "may be connected" % (self.fn.name, ins.where()), st, ins)


class RelayGone(Relay):
    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)

    def edge(self, e, st, bb, succ):
        r = super().edge(e, st, bb, succ)
        self.note(e, st)
        return r

    def note(self, e, st):
        if ("gone",) not in st.ps:
            for x in self.get(st, "dst"):
                if any(not e.pmask(st, a, b, u) & LT for n in self.shared(st, NODES) for a in forms(x[1]) for b in (n, strip(n), ("zx", n, 16))
                       for u in (False, True)):
                    self.add(st, ("gone",))
            for x in self.get(st, "node"):
                if self.isdest(st, x[1]) and self.known(e, st, x[1], "state") == (NOT_CONNECTED, NOT_CONNECTED):
                    self.add(st, ("gone",))


class Absent(RelayGone):
    timed = False


def relay(config, tier, rep):
    prog = program(config)
    a = RelayGone(prog, anchor(prog, "handle_timed_message"), rep).run()
    b = Absent(prog, anchor(prog, "handle_port_absent_message"), rep).run()
    rep.count("transfers analysed", a.sites + b.sites)


# ---------------------------------------------------------------------------------------------------------------------
class Transit(Agree):
    """messages in transit bound what a federate's next event may be, until the federate has completed their tag"""
    rule = "transit"

    def call3(self, e, st, ins, name, args):
        if name in ("pqueue_tag_peek_tag", "pqueue_tag_peek"):
            v = e.fresh(st, ins)
            self.add(st, ("head", args[0], v))
            return [(st, v)]
        if name == "update_scheduling_node_next_event_tag_locked":
            self.sites += 1
            X = tuple(args[1:3])
            H = [(("ex", x[2], 0), ("ex", x[2], 1)) for x in st.ps if x[0] == "head" and self.queue(st, x[1], args[0])]
            given = [T for T in (tuple(("arg", a) for a in self.fn.args[k:k + 2]) for k in range(len(self.fn.args) - 1))]
            given += [(("ex", x[1], 0), ("ex", x[1], 1)) for x in st.ps if x[0] == "got"]
            if not any(not order(e, st, X, h) & GT for h in H):
                self.report("net", "%s() takes over a next event at %s that may be later than a message in transit" %
                            (self.fn.name, ins.where()), st, ins)
            elif not any(not order(e, st, X, t) & GT for t in given) or X not in H + given:
                self.report("net2", "%s() takes over at %s a next event other than the one announced or that of the first message in "
                            "transit" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("updated",))
            return [(st, self.quiet(e, st, ins, name, args))]
        if name == "_logical_tag_complete":
            self.add(st, ("completed", args[0]) + tuple(args[1:3]))
            return [(st, self.quiet(e, st, ins, name, args))]
        if name in ("pqueue_tag_remove_up_to", "pqueue_tag_pop_up_to", "pqueue_tag_pop", "pqueue_tag_pop_tag", "pqueue_tag_remove") and \
                any(v == args[0] and p and p[-1] == QUEUE for v, p, s in st.mem.values()):
            self.sites += 1
            given = [(("ex", x[1], 0), ("ex", x[1], 1)) for x in st.ps if x[0] == "got"]
            if name != "pqueue_tag_remove_up_to" or not self.fn.name == "handle_latest_tag_confirmed" or \
                    tuple(args[1:3]) not in given:
                self.report("forget", "%s() forgets messages in transit at %s that the federate has not completed" %
                            (self.fn.name, ins.where()), st, ins)
            self.add(st, ("forgot",))
        return None

    def queue(self, st, q, node):
        o = self.off("in_transit_message_tags", FED)
        return any(v == q and p and p[-1] == QUEUE and flow.plus(a, -o) == node for a, (v, p, s) in st.mem.items())

    def ret(self, e, st, ins, val):
        self.flush(e, st)
        self.sites += 1
        if self.fn.name == "update_federate_next_event_tag_locked" and ("updated",) not in st.ps:
            self.report("ignored", "%s() returns at %s without having taken over the next event" % (self.fn.name, ins.where()), st, ins)
        c = [x for x in st.ps if x[0] == "completed" and x[2:4] in [(("ex", y[1], 0), ("ex", y[1], 1)) for y in st.ps if y[0] == "got"]]
        if c and not ("forgot",) in st.ps:
            self.report("kept", "%s() returns at %s without having forgotten the messages that the federate has completed" %
                        (self.fn.name, ins.where()), st, ins)
        if self.fn.name in ("handle_latest_tag_confirmed", "handle_next_event_tag") and not c and not ("passed",) in st.ps:
            self.report("lost", "%s() returns at %s without having acted on the tag received" % (self.fn.name, ins.where()), st, ins)

    def call2(self, e, st, ins, name, args):
        if name == "update_federate_next_event_tag_locked":
            if tuple(args[1:3]) in [(("ex", x[1], 0), ("ex", x[1], 1)) for x in st.ps if x[0] == "got"]:
                self.add(st, ("passed",))
            return [(st, self.quiet(e, st, ins, name, args))]
        return super().call2(e, st, ins, name, args)


CALLS = ("update_scheduling_node_next_event_tag_locked", "_logical_tag_complete", "pqueue_tag_remove_up_to")


def transit(config, tier, rep):
    prog = program(config)
    fns = {f.name: f for f in prog.mod.funcs.values() if f.name not in CALLS and any(i.op == "call" and i.x in CALLS for i in f.instrs())
           and not f.name.startswith("pqueue")}
    for nm in ("update_federate_next_event_tag_locked", "handle_next_event_tag", "handle_latest_tag_confirmed"):
        fns[nm] = anchor(prog, nm)
    n = 0
    for f in fns.values():
        n += Transit(prog, f, rep).run().sites
    rep.count("uses of announced and completed tags", n)
