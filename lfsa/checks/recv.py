"""What a federate does with a message that it receives from another federate: the port that the message names gets its
body, at its tag, once."""
from .mlaa import *

INSERT, AT_TAG, TRIGGER, VALUE, TOKEN = "_lf_insert_reactions_for_trigger", "_lf_schedule_at_tag", "lf_schedule_trigger", "lf_schedule_value", "_lf_new_token"
STARTED = ("environment_t", "execution_started")
HEADERS = ("extract_header", "extract_timed_header")


def parts(e, st, A, B):
    """orders of two tags that follow from comparing times and microsteps"""
    t, k = e.pmask(st, A[0], B[0]), e.pmask(st, A[1], B[1], True)
    return t & (LT | GT) | (k if t & EQ else 0)


class Receive(Tagged):
    rule = "receive"
    KIND = -1
    K = 6

    def before(self, e):
        self.tokens = 0

    def has(self, st, *k):
        return [x for x in st.ps if x[:len(k)] == k]

    def is_(self, st, role, v):
        return ("v", role, bare(v)) in st.ps

    def load(self, e, st, ins, addr, path, val):
        for x in self.has(st, "out"):
            if addr == x[1]:
                self.add(st, ("v", x[2], bare(val)))
                if x[2] == "time":
                    self.role(st, "msg", val)
                if x[2] == "microstep":
                    self.role(st, "msg", None, val)
        p = last(path)
        if p == ("@", "_lf_action_table"):
            n = number(addr)
            if n and self.is_(st, "port", bare(n)):
                self.add(st, ("el", val, bare(n)))
        elif p == ("lf_action_base_t", "trigger"):
            for x in self.has(st, "el", flow.root(addr)):
                if x[2] and self.is_(st, "port", x[2]):
                    self.add(st, ("tr", val, x[2]))

    def mine(self, st, v):
        """is it the trigger of the port that the message names?"""
        return any(self.is_(st, "port", x[2]) for x in self.has(st, "tr", v) if x[2])

    def store(self, e, st, ins, addr, path, val):
        if path and len(path) >= 2 and path[-2] == KNOWN_TO and path[-1] == ("tag_t", "time") and ("hdr",) in st.ps:
            if self.has(st, "tok") and not self.mine(st, flow.root(addr)):
                self.report("status", "%s() takes at %s, because of a message, the status of another port as known" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("told",))

    def msg(self, st):
        return [(x[2], y[2]) for x in self.has(st, "t", "msg") for y in self.has(st, "m", "msg")]

    def edge(self, e, st, bb, succ):
        if ("hdr",) not in st.ps:
            return True
        now = [(("ex", x[1], 0), ("ex", x[1], 1)) for x in self.has(st, "now")] + [C for C in self.envtag(e, st, CUR) if None not in C]
        M = self.msg(st)
        if any(k[0] == "T" and not v & parts(e, st, k[1], k[2]) for k, v in st.facts.items()):
            return False        # the comparisons contradict each other
        for A in M:
            for C in now:
                o = order(e, st, A, C)
                if o in (LT, EQ, GT, LT | EQ):
                    self.add(st, ("o", o))
        for a, (v, p, s) in list(st.mem.items()):
            if p and len(p) >= 2 and p[-1] == ("tag_t", "time") and p[-2] in (KNOWN_TO, ("trigger_t", "last_tag")) and ("told",) not in st.ps:
                X = tagat(e, st, a)
                if p[-2] == KNOWN_TO and None not in X and self.mine(st, flow.root(a)) and ("ahead",) not in st.ps:
                    for k in [k for k in st.facts if k[0] == "T" and X in k[1:]]:
                        if order(e, st, X, k[1] if k[2] == X else k[2]) == GT:
                            self.add(st, ("ahead",))
                if None not in X and self.mine(st, flow.root(a)) and any(order(e, st, A, X) == GT for A in M):
                    self.add(st, ("new", p[-2][1]))
        if self.known(e, st, STARTED, lo=1):
            self.add(st, ("started",))
        if self.known(e, st, STARTED, hi=0):
            self.add(st, ("notstarted",))
        for C in now:
            for S in self.envtag(e, st, STOP):
                if None not in S and not order(e, st, C, S) & LT:
                    self.add(st, ("stopped",))
        return True

    def other(self, e, st, ins, name, args):
        if name in HEADERS or name == "extract_uint16" and self.fn.name.startswith("listen"):
            if name == "extract_uint16":
                return None
            e.default_call(st, ins, name, args)
            self.clear(st)
            self.add(st, ("hdr",), ("out", args[1], "port"), ("out", args[3], "length"))
            if name == "extract_timed_header":
                self.add(st, ("timed",), ("out", args[4], "time"), ("out", flow.plus(args[4], 8), "microstep"))
            return [(st, ("undef",))]
        if name == "lf_tag":
            v = e.fresh(st, ins)
            self.add(st, ("now", v))
            return [(st, v)]
        if name == "extract_tag" and ("hdr",) in st.ps and ("timed",) not in st.ps:
            v = e.fresh(st, ins)
            self.add(st, ("timed",), ("v", "time", ("ex", v, 0)), ("v", "microstep", ("ex", v, 1)))
            self.role(st, "msg", ("ex", v, 0), ("ex", v, 1))
            return [(st, v)]
        if name in READ and args[1] == ("c", 1):
            self.given_up(st, ins)
            self.clear(st)
        if ("hdr",) not in st.ps:
            return None
        if name in READ and args[1] != ("c", 1) and not self.has(st, "tok"):
            if self.is_(st, "length", args[1]):
                self.add(st, ("body", args[2]))
            return None
        if name == VALUE:
            self.sites += 1
            self.mutex(st)
            if not self.port(st, args[0]):
                self.report("port", "%s() schedules at %s a message for another port than the one that it names" % (self.fn.name, ins.where()), st, ins)
            self.contents(st, ins, args[2], args[3])
            self.add(st, ("deliv",))
            self.clear(st)
        if name == TOKEN and self.has(st, "body"):
            self.sites += 1
            self.tokens += 1
            if not self.port(st, args[0]):
                self.report("port", "%s() makes at %s a token for another port than the one that the message names" % (self.fn.name, ins.where()), st, ins)
            self.contents(st, ins, args[1], args[2])
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("tok", v), ("timed", "owe"))
            return [(st, v)]
        if name in (INSERT, AT_TAG, TRIGGER) and ("timed",) in st.ps:
            self.deliver(e, st, ins, name, args)
        if name == "lf_mutex_unlock" and args[0] not in (("@", OUT), ("@", "socket_mutex")) and ("timed", "owe") in st.ps:
            self.edge(e, st, None, None)
            keep = set()
            if ("deliv",) not in st.ps and not (("stopped",) in st.ps and ("started",) in st.ps):
                keep.add(("lost", ins.where()))
            if ("told",) not in st.ps and ("ahead",) not in st.ps:
                keep.add(("untold", ins.where()))
            self.clear(st)
            self.add(st, *keep)
        return None

    def given_up(self, st, ins):
        for x in self.has(st, "lost"):
            self.report("lost", "%s() gives up a message before %s, though execution has not ended" % (self.fn.name, x[1]), st, ins)
        for x in self.has(st, "untold"):
            self.report("told", "%s() takes a message without, before %s, taking the status of its port as known" % (self.fn.name, x[1]), st, ins)
        self.drop(st, lambda x: x[0] in ("lost", "untold"))

    def ret(self, e, st, ins, val):
        self.given_up(st, ins)

    def mutex(self, st):
        pass

    def clear(self, st):
        self.drop(st, lambda x: x[0] in ("hdr", "out", "v", "el", "tr", "body", "tok", "timed", "deliv", "told", "now", "o", "new", "started", "notstarted",
                                         "stopped", "t", "m", "ahead"))

    def port(self, st, act):
        return any(self.is_(st, "port", x[2]) for x in self.has(st, "el", act) if x[2])

    def contents(self, st, ins, buf, length):
        if not self.has(st, "body", buf):
            self.report("body", "%s() passes on at %s something other than the body of the message" % (self.fn.name, ins.where()), st, ins)
        if not self.is_(st, "length", length):
            self.report("length", "%s() passes on at %s a body with another length than that of the message" % (self.fn.name, ins.where()), st, ins)

    def deliver(self, e, st, ins, name, args):
        self.sites += 1
        if not self.edge(e, st, None, None):
            return
        if not self.mine(st, args[1]):
            self.report("port", "%s() delivers at %s a message to another port than the one that it names" % (self.fn.name, ins.where()), st, ins)
        if not self.has(st, "tok", args[-1]):
            self.report("body", "%s() delivers at %s something other than what the message contains" % (self.fn.name, ins.where()), st, ins)
        if ("deliv",) in st.ps:
            self.report("twice", "%s() delivers at %s a message that it delivered before" % (self.fn.name, ins.where()), st, ins)
        self.add(st, ("deliv",))
        o = [x[1] for x in self.has(st, "o")]
        if name == INSERT:
            if EQ not in o:
                self.report("now", "%s() delivers at %s a message at the current tag whose tag is not known to be the current one" % (self.fn.name, ins.where()), st, ins)
            for f in ("last_known_status_tag", "last_tag"):
                if ("new", f) not in st.ps:
                    self.report("again", "%s() delivers at %s a message at the current tag, though the port may have had one (its tag was not compared with %s)" % (
                        self.fn.name, ins.where(), f), st, ins)
            if ("started",) not in st.ps:
                self.report("start", "%s() delivers at %s a message at the current tag, though execution may not have started" % (self.fn.name, ins.where()), st, ins)
        elif name == AT_TAG:
            if not any(self.isrole(st, "msg", X) for X in ((args[2], args[3]),)):
                self.report("tag", "%s() schedules at %s a message at another tag than its own" % (self.fn.name, ins.where()), st, ins)
            elif GT not in o and ("notstarted",) not in st.ps:
                self.report("tag", "%s() schedules at %s a message at its tag, though that may be in the past" % (self.fn.name, ins.where()), st, ins)
        elif name == TRIGGER:
            if e.iv(st, args[2])[:2] != (0, 0) or not ({LT, EQ, LT | EQ} & set(o)):
                self.report("tag", "%s() schedules at %s a message with a delay, though it is not known to be late" % (self.fn.name, ins.where()), st, ins)

    def reborn(self, e, st, aid):
        super().reborn(e, st, aid)
        self.drop(st, lambda x: any(aid in flow.atoms(y) for y in x[1:] if isinstance(y, tuple)))


def received(config, tier, rep):
    prog = program(config)
    n = t = 0
    for f in list(prog.mod.funcs.values()):
        if f.name not in HEADERS and any(i.op == "call" and i.x in HEADERS for i in f.instrs()):
            c = Receive(prog, f, rep).run()
            n += c.sites
            t += c.tokens
            rep.count("functions that receive messages")
    rep.count("paths to the delivery of a message", n)
    rep.need("messages received in " + config, n, 3)
    rep.need("tagged messages received in " + config, t, 1)
