"""Rules about the agreements the coordinator brokers: the start time and the stop tag."""
from .rti2 import *
from .rti2 import _macros

REMOTE, COMMON, FED = "rti_remote_t", "rti_common_t", "federate_info_t"
WAITS = {"lf_cond_wait", "lf_platform_cond_timedwait", "_lf_cond_timedwait", "lf_cond_timedwait", "pthread_cond_wait"}
WAKE = {"lf_cond_broadcast", "pthread_cond_broadcast"}
READS = {"read_from_socket": 2, "read_from_socket_close_on_error": 2, "read_from_socket_fail_on_error": 2}
COUNT = ("rti_remote_t", "num_feds_proposed_start")
MAXSTART = ("rti_remote_t", "max_start_time")
NODES = (COMMON, "number_of_scheduling_nodes")


class Agree(Each):
    """common to both: what is in the shared records, obligations that must be met when the lock is released"""
    def shared(self, st, field):
        """current values of a field of the coordinator's records, as far as known"""
        return [v for v, p, s in st.mem.values() if p and p[-1] == field]

    def release(self, e, st, ins, what):
        pass

    def call2(self, e, st, ins, name, args):
        if name in UNLOCK:
            self.release(e, st, ins, "unlocks")
        elif name in WAITS:
            self.release(e, st, ins, "waits")
        elif name and name.startswith("swap_bytes_if_big_endian"):
            return [(st, args[0])]
        elif name in ENCODE:
            return self.encode(e, st, ins, name, args)
        elif name == "extract_tag" or name == "extract_int64":
            v = e.fresh(st, ins)
            self.add(st, ("got", v, args[0]))
            return [(st, v)]
        return self.call3(e, st, ins, name, args)

    def call3(self, e, st, ins, name, args):
        return None

    def written(self, e, st, args, kind):
        return args is not None and sent(e, st, args) == macro(kind)


# ---------------------------------------------------------------------------------------------------------------------
class Start(Agree):
    """the start time is the greatest one proposed, plus a constant, and known to all at once"""
    rule = "start"

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        if any(x[0] == "into" and flow.root(addr) == x[1] for x in st.ps) and self.prog.mod.types.layout(ins.ty)[0] == 8:
            self.add(st, ("got", val, addr))
        if path and path[-1] == MAXSTART and self.agreed(e, st):
            self.add(st, ("final", val))

    def agreed(self, e, st):
        if ("agreed",) in st.ps:
            return True
        return any(not e.pmask(st, c, n) & LT for c in self.shared(st, COUNT) for n in self.shared(st, NODES))

    def store(self, e, st, ins, addr, path, val):
        super().store(e, st, ins, addr, path, val)
        if not path:
            return
        if path[-1] == COUNT:
            self.sites += 1
            old = st.mem.get(addr)
            if old is None or val != flow.plus(old[0], 1):
                self.report("count", "%s() changes at %s the number of proposals received by other than one" %
                            (self.fn.name, ins.where()), st, ins)
            if any(x[0] == "inc" for x in st.ps):
                self.report("twice", "%s() counts a proposal twice at %s" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("inc", val), ("open",))
        elif path[-1] == MAXSTART:
            self.sites += 1
            old = st.mem.get(addr)
            if old is None or e.pmask(st, val, old[0]) & LT:
                self.report("lower", "%s() may lower the greatest start time proposed at %s" % (self.fn.name, ins.where()), st, ins)
            if not any(x[0] == "got" and x[1] == val for x in st.ps):
                self.report("other", "%s() sets the greatest start time at %s to something that was not proposed" %
                            (self.fn.name, ins.where()), st, ins)
        elif path == (("@", "start_time"),):
            self.add(st, ("global", val))
        elif path[-1] == (NODE, "state") and val == ("c", GRANTED):
            self.sites += 1
            if not any(x[0] == "sentst" for x in st.ps):
                self.report("granted", "%s() marks a federate as started at %s although it was not sent the start time" %
                            (self.fn.name, ins.where()), st, ins)
            self.add(st, ("started",))
            self.drop(st, lambda x: x == ("woken",))

    def release(self, e, st, ins, what):
        if ("open",) in st.ps:
            P = [x[1] for x in st.ps if x[0] == "got"]
            M = self.shared(st, MAXSTART)
            if not any(not e.pmask(st, p, m) & GT for p in P for m in M):
                self.report("max", "%s() %s at %s after counting a proposal without having raised the greatest start time to it" %
                            (self.fn.name, what, ins.where()), st, ins)
            if what == "waits":
                if not any(not e.pmask(st, c, n) & EQ for c in self.shared(st, COUNT) for n in self.shared(st, NODES)):
                    self.report("last", "%s() waits at %s for further proposals although its own may have been the last" %
                                (self.fn.name, ins.where()), st, ins)
            elif not ("all",) in st.ps and not any(not e.pmask(st, c, n) & EQ for c in self.shared(st, COUNT)
                                                   for n in self.shared(st, NODES)):
                self.report("wake", "%s() unlocks at %s without having woken those who wait for the last proposal" %
                            (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x == ("open",))
        if self.agreed(e, st):
            self.add(st, ("agreed",))
        if ("started",) in st.ps and ("woken",) not in st.ps:
            self.report("wake2", "%s() %s at %s without having woken those who wait for a federate to be started" %
                        (self.fn.name, what, ins.where()), st, ins)

    def call3(self, e, st, ins, name, args):
        if name in READS:
            self.add(st, ("into", flow.root(args[READS[name]])))
        if name in WAKE:
            if args[0] == ("@", "received_start_times"):
                self.add(st, ("all",))
            elif args[0] == ("@", "sent_start_time") and ("started",) in st.ps:
                self.add(st, ("woken",))
            elif args[0] == ("@", "sent_start_time"):
                self.add(st, ("woken",))
        if name in WRITES and self.written(e, st, args, "MSG_TYPE_TIMESTAMP"):
            self.sites += 1
            v = {x[1]: x[2] for x in st.ps if x[0] == "enc"}.get(flow.plus(args[2], 1))
            bad = None
            if not any(x[0] == "inc" for x in st.ps) or not self.agreed(e, st):
                bad = "before all federates are known to have proposed one"
            elif v is None or not any(x[0] == "final" and v == flow.plus(x[1], self.delay()) for x in st.ps):
                bad = "other than the greatest proposed plus the agreed offset"
            if bad:
                self.report("send", "%s() sends a start time at %s %s" % (self.fn.name, ins.where(), bad), st, ins)
            self.add(st, ("sentst", v))
            return [(st, e.fresh(st, ins))]
        return None

    def delay(self):
        with open(build.REPO + "/include/core/federated/network/net_common.h") as f:
            m = re.search(r"#\s*define\s+DELAY_START\s+\(?\s*(N?[UM]?SECS?)\s*\((\d+)", f.read())
        unit = {"S": 10**9, "M": 10**6, "U": 10**3, "N": 1}
        if not m:
            raise AnalysisBroken("DELAY_START")
        return int(m.group(2)) * unit[m.group(1)[0]]

    def ret(self, e, st, ins, val):
        self.flush(e, st)
        s = [x[1] for x in st.ps if x[0] == "sentst"]
        if not s and not any(x[0] in ("inc", "started") for x in st.ps):
            return
        self.sites += 1
        bad = None
        if len(s) != 1:
            bad = "without having sent the start time"
        elif ("global", s[0]) not in st.ps:
            bad = "without having recorded the start time that it sent"
        elif ("started",) not in st.ps:
            bad = "without having marked the federate as started"
        if bad:
            self.report("end", "%s() returns at %s %s" % (self.fn.name, ins.where(), bad), st, ins)


def stores_of(prog, fields):
    return [f for f in prog.mod.funcs.values()
            if any(i.op == "store" and i.ops[0][0] != "undef" and (prog.access(i)[0] or (None,))[-1] in fields for i in f.instrs())]


STARTUP = {"initialize_RTI": "no other thread exists", "initialize_rti_common": "no other thread exists",
           "initialize_federate": "no thread knows the federate yet", "initialize_scheduling_node": "no thread knows the node yet",
           "main": "no other thread exists"}


def start(config, tier, rep):
    prog = program(config)
    fns = {f.name: f for f in stores_of(prog, {COUNT, MAXSTART}) if f.name not in STARTUP}
    for f in prog.mod.funcs.values():
        if any(i.op == "store" and i.ops[0] == ("c", GRANTED) and (prog.access(i)[0] or (None,))[-1] == (NODE, "state")
               for i in f.instrs()) and f.name not in STARTUP:
            fns[f.name] = f
    rep.need("functions that take proposals of a start time", len(fns), 1)
    n = 0
    for f in fns.values():
        n += Start(prog, f, rep).run().sites
    rep.count("functions that agree on the start time", len(fns))
    rep.count("steps of the agreement on the start time", n)


# ---------------------------------------------------------------------------------------------------------------------
MAXSTOP = (COMMON, "max_stop_tag")
HANDLING = (COMMON, "num_scheduling_nodes_handling_stop")
REQUESTED = (FED, "requested_stop")
INPROGRESS = (REMOTE, "stop_in_progress")
SENT = (("@", "stop_granted_already_sent_to_federates"),)
GRN, REQ = "MSG_TYPE_STOP_GRANTED", "MSG_TYPE_STOP_REQUEST"


def forms(v):
    v = strip(v)
    return (v, ("zx", v, 16), ("sx", v, 16), ("zx", v, 32), ("sx", v, 32))


def samenum(e, st, a, b):
    return strip(a) == strip(b) or any(e.pmask(st, x, y) == EQ for x in forms(a) for y in forms(b))


class Stop(Agree):
    """the stop tag is the greatest one requested or replied, known to all once every federate was heard"""
    rule = "stop"
    NUM = (NODES,)
    what = "federates"

    def __init__(self, *a):
        super().__init__(*a)
        self.kinds = {}

    def run2(self):
        """first find which loop sends what"""
        rep, self.rep = self.rep, Report()
        self.run()
        self.rep, self.sites = rep, 0
        self.second = True
        return self.run()

    second = False

    def headers(self, e):
        out = set()
        for bn, b in self.fn.blocks.items():
            if any(i.op == "call" and i.x in WRITES for i in b.ins):
                hs = [h for h in e.loops if bn in e.loops[h]]
                if hs:
                    out.add(min(hs, key=lambda h: len(e.loops[h])))
        return {h for h in out if not self.second or h in self.kinds}

    # -- what is known ------------------------------------------------------------------------------------------------
    def maxstop(self, e, st):
        return [tagat(e, st, a) for a, (v, p, s) in st.mem.items()
                if p and len(p) > 1 and p[-2] == MAXSTOP and p[-1] == ("tag_t", "time")]

    def flag(self, e, st, field):
        r = None
        for a, (v, p, s) in st.mem.items():
            if p and (p == field or p[-1] == field):
                r = sure(e, st, v) if r is None else r
        return r

    def all(self, e, st):
        """mask: number of federates heard compared with their number"""
        m = 7
        for c in self.shared(st, HANDLING):
            for n in self.shared(st, NODES):
                m &= e.pmask(st, c, n)
        return m

    def settle(self, e, st):
        """drop the obligations that were met"""
        if self.all(e, st) == EQ:
            self.add(st, ("heard",))
        if ("due",) in st.ps and (not self.all(e, st) & EQ or self.flag(e, st, SENT) and ("sending",) not in st.ps):
            self.drop(st, lambda x: x == ("due",))
        if self.flag(e, st, SENT) and ("sending",) not in st.ps:
            self.drop(st, lambda x: x == ("fwd",))
        if ("fwd",) in st.ps and (self.flag(e, st, INPROGRESS) and ("mine",) not in st.ps):
            self.drop(st, lambda x: x == ("fwd",))

    # -- events -------------------------------------------------------------------------------------------------------
    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)

    def store(self, e, st, ins, addr, path, val):
        half = [x for x in st.ps if x[0] == "hstop"]
        if path and len(path) > 1 and path[-2] == MAXSTOP:
            a = flow.plus(addr, -8) if path[-1][1] == "microstep" else addr
            if not half:
                self.add(st, ("hstop", a, tagat(e, st, a), ins.id))
            return
        super().store(e, st, ins, addr, path, val)
        if not path:
            return
        if path[-1] == HANDLING:
            self.sites += 1
            old = st.mem.get(addr)
            if old is None or val != flow.plus(old[0], 1) or ("num+",) in st.ps:
                self.report("num", "%s() changes the number of federates heard about stopping at %s other than by one for a federate "
                            "not counted before" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("num+",), ("due",))
            self.drop(st, lambda x: x == ("heard",))
            self.pair(e, st)
        elif path[-1] == REQUESTED:
            self.sites += 1
            old = st.mem.get(addr)
            n = flow.plus(addr, -self.off("requested_stop", FED))
            if not sure(e, st, val) or old is None or sure(e, st, old[0]) is not False or any(x[0] == "req" for x in st.ps):
                self.report("again", "%s() marks at %s a federate that may already be marked as heard about stopping" %
                            (self.fn.name, ins.where()), st, ins)
            self.add(st, ("req", n))
            self.pair(e, st)
        elif path[-1] == INPROGRESS and sure(e, st, val):
            self.add(st, ("mine",))
        elif path == SENT and sure(e, st, val):
            old = st.mem.get(addr)
            if old is None or sure(e, st, old[0]) is not False:
                self.report("once", "%s() may send the stop tag again: see %s" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("sending",))

    def flush(self, e, st, keep=None):
        super().flush(e, st, keep)
        for x in [x for x in st.ps if x[0] == "hstop"]:
            self.drop(st, lambda y: y == x)
            new = tagat(e, st, x[1])
            self.sites += 1
            i = self.prog.atom_ins(x[3])
            if order(e, st, new, x[2]) & LT:
                self.report("lower", "%s() may lower the greatest stop tag requested at %s" % (self.fn.name, i.where()), st, i)
            if new not in self.asked(st) and order(e, st, new, x[2]) != EQ:
                self.report("other", "%s() sets the stop tag at %s to something that no federate asked for" %
                            (self.fn.name, i.where()), st, i)

    def asked(self, st):
        return [(("ex", x[1], 0), ("ex", x[1], 1)) for x in st.ps if x[0] == "got"]

    def pair(self, e, st):
        r = [x[1] for x in st.ps if x[0] == "req"]
        if r and ("num+",) in st.ps:
            self.drop(st, lambda x: x[0] in ("req", "num+"))
            self.add(st, ("counted", r[0]))
            if self.known(e, st, r[0], "state") != (NOT_CONNECTED, NOT_CONNECTED):
                self.add(st, ("reply",))
                if self.fn.name == "handle_stop_request_message":
                    self.add(st, ("fwd",))

    def edge(self, e, st, bb, succ):
        self.flush(e, st)
        self.settle(e, st)
        return super().edge(e, st, bb, succ)

    def complete(self, e, st, ins):
        T = self.asked(st)
        # what a federate asks for in a reply counts even if it was heard before
        need = ("reply",) in st.ps or T and self.fn.name == "handle_stop_request_reply"
        if need and not (T and any(all(not order(e, st, t, M) & GT for t in T) for M in self.maxstop(e, st))):
            self.report("max", "%s() proceeds at %s without having raised the stop tag to what the federate asked for" %
                        (self.fn.name, ins.where()), st, ins)

    def release(self, e, st, ins, what):
        self.settle(e, st)
        if self.flag(e, st, INPROGRESS) is False:
            self.add(st, ("quit",))
        self.complete(e, st, ins)
        self.drop(st, lambda x: x == ("heard",))
        bad = None
        if ("num+",) in st.ps or any(x[0] == "req" for x in st.ps):
            bad = "having counted a federate without marking it, or the opposite"
        elif ("due",) in st.ps:
            bad = "without having sent the stop tag although all federates may have been heard"
        elif ("fwd",) in st.ps:
            bad = "without having forwarded the request to those not heard yet"
        elif ("sending",) in st.ps or ("mine",) in st.ps:
            bad = "having noted that %s was sent without sending it" % ("the stop tag" if ("sending",) in st.ps else "the request")
        if bad:
            self.report("release", "%s() %s at %s %s" % (self.fn.name, what, ins.where(), bad), st, ins)
        self.drop(st, lambda x: x[0] in ("reply", "due", "fwd"))

    def call3(self, e, st, ins, name, args):
        if name in WRITES:
            for k in (GRN, REQ):
                if self.written(e, st, args, k):
                    hs = [h for h in e.loops if ins.bb.name in e.loops[h]]
                    if hs:
                        self.kinds[min(hs, key=lambda h: len(e.loops[h]))] = k
                    return self.sending(e, st, ins, name, args, k)
            return None
        if name in ("notify_downstream_advance_grant_if_safe", "notify_advance_grant_if_safe", "lf_thread_create", "lf_tag_compare"):
            if name == "lf_tag_compare":
                return None
            return [(st, self.quiet(e, st, ins, name, args))]
        return None

    def sending(self, e, st, ins, name, args, k):
        self.sites += 1
        self.complete(e, st, ins)
        enc = {x[1]: x[2] for x in st.ps if x[0] == "enc"}
        b = flow.plus(args[2], 1)
        T = (enc.get(b), enc.get(flow.plus(b, 8)))
        if T[0] is None or T not in self.maxstop(e, st):
            self.report("tag/" + k, "%s() sends at %s a stop tag other than the greatest one requested" %
                        (self.fn.name, ins.where()), st, ins)
        if k == GRN:
            if ("sending",) not in st.ps:
                self.report("flag", "%s() sends the stop tag at %s without noting, before, that it does" %
                            (self.fn.name, ins.where()), st, ins)
            if ("heard",) not in st.ps:
                self.report("early", "%s() sends the stop tag at %s although it is not known that all federates were heard" %
                            (self.fn.name, ins.where()), st, ins)
        n = self.node(e, st, args[0])
        if n is not None:
            self.add(st, ("did", k, n))
        return [(st, e.fresh(st, ins))]

    node = Sends.node

    def early(self, e, st, bb, succ):
        super().early(e, st, bb, succ)

    def each(self, e, st, h, idx):
        k = self.kinds.get(h)
        for n, s, i in [x[1:4] for x in st.ps if x[0] == "node"]:
            if s != "num" or not idx(i):
                continue
            if ("did", k, n) in st.ps:
                return None
            gone = self.known(e, st, n, "state") == (NOT_CONNECTED, NOT_CONNECTED)
            if k == GRN and gone:
                return None
            if k == REQ:
                r = self.field(e, st, n, "requested_stop") if False else st.mem.get(flow.plus(n, self.off("requested_stop", FED)))
                if r is not None and sure(e, st, r[0]):
                    return None
                if ("counted", n) in st.ps:
                    return None
                me = ("arg", self.fn.args[0])
                if n == me or e.pmask(st, n, me, True) == EQ:
                    return None
                f, g = self.field(e, st, n, "id"), self.field(e, st, me, "id")
                if g is not None and any(a is not None and samenum(e, st, a, g) for a in (f, i)):
                    return None
        return "without having sent it the %s" % ("stop tag" if k == GRN else "request")

    def finished(self, e, st, h):
        k = self.kinds.get(h)
        if k == GRN:
            self.drop(st, lambda x: x in (("due",), ("sending",), ("fwd",)))
            self.add(st, ("granted",))
        elif k == REQ:
            self.drop(st, lambda x: x in (("fwd",), ("mine",)))

    def ret(self, e, st, ins, val):
        self.flush(e, st)


class StopEnded(Stop):
    """a federate that is gone does not keep the others from agreeing"""
    def stored(self, e, st, ins, node, field, val):
        super().stored(e, st, ins, node, field, val)
        if field == "state" and node == ("arg", self.fn.args[0]):
            self.drop(st, lambda x: x == ("gone",))
            if val == ("c", NOT_CONNECTED):
                self.add(st, ("gone",))

    def call3(self, e, st, ins, name, args):
        if name in LOCK:
            self.drop(st, lambda x: x in (("quit",), ("gone",)))
        return super().call3(e, st, ins, name, args)

    def release(self, e, st, ins, what):
        me = ("arg", self.fn.args[0])
        r = st.mem.get(flow.plus(me, self.off("requested_stop", FED)))
        if ("gone",) in st.ps:
            if ("counted", me) in st.ps or r is not None and sure(e, st, r[0]):
                self.add(st, ("quit",))
        super().release(e, st, ins, what)

    def ret(self, e, st, ins, val):
        self.sites += 1
        if not {("quit",), ("gone",)} <= st.ps:
            self.report("gone", "%s() stops serving a federate at %s without counting it among those heard about a stop being agreed on" %
                        (self.fn.name, ins.where()), st, ins)


def stop(config, tier, rep):
    prog = program(config)
    fns = {f.name: f for f in stores_of(prog, {HANDLING, REQUESTED, INPROGRESS}) if f.name not in STARTUP}
    for f in prog.mod.funcs.values():
        if f.name not in STARTUP and any(i.op == "store" and i.ops[0][0] != "undef" and
                                         (prog.access(i)[0] or ())[-2:-1] == (MAXSTOP,) for i in f.instrs()):
            fns[f.name] = f
    n = 0
    for f in fns.values():
        c = Stop(prog, f, rep).run2()
        n += c.sites
        rep.count("loops over federates", len(c.kinds))
    anchor(prog, "handle_stop_request_message")
    rep.count("ways the thread of a federate ends", StopEnded(prog, anchor(prog, "federate_info_thread_TCP"), rep).run2().sites)
    rep.need("functions that take part in the agreement on the stop tag", len(fns), 2)
    rep.count("functions that agree on the stop tag", len(fns))
    rep.count("steps of the agreement on the stop tag", n)


# ---------------------------------------------------------------------------------------------------------------------
class Started(Agree):
    """a request to stop goes only to federates that were sent the start time (no federate becomes PENDING again)"""
    rule = "started"
    NUM = (NODES,)
    second = False

    def run2(self):
        self.bad = set()
        rep, self.rep = self.rep, Report()
        self.run()
        self.rep, self.sites = rep, 0
        self.second = True
        return self.run()

    def headers(self, e):
        return {h for h, body in e.loops.items() if any(
            i.op == "load" and (self.prog.access(i)[0] or ())[-1:] == (("scheduling_node_t", "state"),)
            for b in body for i in self.fn.blocks[b].ins)}

    def nostep(self, h):
        self.bad.add(h)

    def early(self, e, st, bb, succ):
        pass

    def each(self, e, st, h, idx):
        for n, s, i in [x[1:4] for x in st.ps if x[0] == "node"]:
            if s == "num" and idx(i) and self.isnot(e, st, n, "state", PENDING):
                return None
        self.bad.add(h)

    def finished(self, e, st, h):
        if self.second and h not in self.bad:
            self.add(st, ("swept",))

    node = Sends.node

    def call3(self, e, st, ins, name, args):
        if name in WRITES and self.written(e, st, args, REQ):
            self.sites += 1
            n = self.node(e, st, args[0])
            me = ("arg", self.fn.args[0]) if self.fn.args else None
            if ("swept",) not in st.ps and not (n is not None and self.isnot(e, st, n, "state", PENDING)):
                self.report("request", "%s() sends a request to stop at %s to a federate that may not have got the start time yet" %
                            (self.fn.name, ins.where()), st, ins)
        return None


ADMIT = {"lf_connect_to_federates": "until the connections are there no federate can be sent the start time"}


def started(config, tier, rep):
    prog = program(config)
    fns = {"handle_stop_request_message": anchor(prog, "handle_stop_request_message")}
    n = 0
    for f in prog.mod.funcs.values():
        if any(i.op == "store" and i.ops[0] == ("c", macro(REQ)) for i in f.instrs()) and any(
                i.op == "call" and i.x in WRITES for i in f.instrs()):
            n += Started(prog, f, rep).run2().sites
    rep.count("requests to stop sent", n)
    rep.need("requests to stop in " + config, n, 1)
    for f in stores_of(prog, {("scheduling_node_t", "state")}):
        for i in f.instrs():
            if i.op == "store" and (prog.access(i)[0] or ())[-1:] == (("scheduling_node_t", "state"),) and i.ops[0] == ("c", PENDING):
                if f.name not in STARTUP and f.name not in ADMIT:
                    rep.violation("started/again", "%s() makes a federate wait for the start time again at %s" % (f.name, i.where()))
