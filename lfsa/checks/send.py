"""Messages that are put together to be sent: what they say, to whom they go, and that they are not mixed with others."""
from .net import *
from .rti2 import ENCODE, strip
from .tags import CUR, STOP

OUT = "lf_outbound_socket_mutex"
FED = "federate_instance_t"
TAGAT1 = ((1, 8), (9, 4))
U = (1, 2), (3, 2), (5, 4)
# message type: fields (offset, width) after the type, and whether a body follows
LAYOUT = {2: (((1, 8),), 0), 5: (U + ((9, 8), (17, 4)), 1), 18: (U + ((9, 8), (17, 4)), 1), 17: (U, 1), 6: (TAGAT1, 0), 7: (TAGAT1, 0),
          8: (TAGAT1, 0), 9: (TAGAT1, 0), 10: (TAGAT1, 0), 11: (TAGAT1, 0), 12: (TAGAT1, 0), 23: (((1, 2), (3, 2), (5, 8), (13, 4)), 0),
          15: (((1, 4),), 0), 13: (((1, 2),), 0)}
NAMES = {2: "MSG_TYPE_TIMESTAMP", 5: "MSG_TYPE_TAGGED_MESSAGE", 18: "MSG_TYPE_P2P_TAGGED_MESSAGE", 17: "MSG_TYPE_P2P_MESSAGE",
         6: "MSG_TYPE_NEXT_EVENT_TAG", 7: "MSG_TYPE_TAG_ADVANCE_GRANT", 8: "MSG_TYPE_PROVISIONAL_TAG_ADVANCE_GRANT",
         9: "MSG_TYPE_LATEST_TAG_CONFIRMED", 10: "MSG_TYPE_STOP_REQUEST", 11: "MSG_TYPE_STOP_REQUEST_REPLY", 12: "MSG_TYPE_STOP_GRANTED",
         23: "MSG_TYPE_PORT_ABSENT", 15: "MSG_TYPE_ADDRESS_ADVERTISEMENT", 13: "MSG_TYPE_ADDRESS_QUERY"}
# what an outgoing message is made from: parameters by position
SENDS = {"lf_send_message": dict(type=0, port=1, fed=2, len=4, msg=5, types=(17,)),
         "lf_send_tagged_message": dict(env=0, delay=1, type=2, port=3, fed=4, len=6, msg=7, types=(5, 18)),
         "lf_send_port_absent_to_federate": dict(env=0, delay=1, port=2, fed=3, types=(23,))}


def num(v):
    """the number itself, without the changes of its width"""
    while v[0] in ("zx", "sx", "tr"):
        v = v[1]
    return v


class Message(Sock):
    """what is in a buffer when it is sent"""
    K = 24
    TABLE = LAYOUT
    ANY = False         # consider every kind that a value may stand for

    def put(self, st, a, w, v):
        r = flow.root(a)
        for x in self.get(st, "e"):
            if flow.root(x[1]) == r:
                o, p = self.off(a), self.off(x[1])
                if o is None or p is None or (o < p + x[2] and p < o + w):
                    self.drop(st, lambda y: y == x)
        self.add(st, ("e", a, w, v))

    def off(self, a):
        if a[0] == "+":
            return a[2]
        return 0 if a == flow.root(a) else None

    def load(self, e, st, ins, addr, path, val):
        pass

    def store(self, e, st, ins, addr, path, val):
        if flow.root(addr)[0] == "al":
            self.put(st, addr, self.prog.mod.types.layout(ins.tys[0])[0], val)

    def fields(self, st, buf):
        r = flow.root(buf)
        base = self.off(buf)
        return {self.off(x[1]) - base: (x[2], x[3]) for x in self.get(st, "e") if flow.root(x[1]) == r and self.off(x[1]) is not None
                and base is not None}

    def kinds(self, e, st, v):
        """the kinds of message that the first byte may stand for"""
        n = num(v)
        lo, hi, ne = e.iv(st, n)
        if lo == hi:
            return {lo & 255}
        return {k for k in self.TABLE if e.pmask(st, n, ("c", k)) & EQ} if self.ANY else set()

    def call2(self, e, st, ins, name, args):
        if name in ENCODE:
            k, n = ENCODE[name]
            if name == "encode_tag":
                self.put(st, args[0], 8, args[1])
                self.put(st, flow.plus(args[0], 8), 4, args[2])
            else:
                self.put(st, args[1], n, args[0])
            r = flow.root(args[k])
            keep = {a: m for a, m in st.mem.items() if r[0] == "al"}
            e.default_call(st, ins, name, args)
            st.mem.update({a: m for a, m in keep.items() if flow.root(a) != r})
            return [(st, ("undef",))]
        if name in WRITE:
            return self.write(e, st, ins, name, args)
        if name in ("lf_mutex_lock", "lf_mutex_unlock") and args[0] == ("@", OUT):
            self.drop(st, lambda x: x[0] in ("lk", "hd"))
            if name == "lf_mutex_lock":
                self.add(st, ("lk",))
        if name in ("memcpy", "memset", "memmove") or name and name.startswith("llvm.mem"):
            r = flow.root(args[0])
            self.drop(st, lambda x: x[0] == "e" and flow.root(x[1]) == r)
        return self.other(e, st, ins, name, args)

    def other(self, e, st, ins, name, args):
        if name in ("lf_delay_tag", "lf_delay_strict", "lf_tag_compare"):
            return None
        return None

    def write(self, e, st, ins, name, args):
        F = self.fields(st, args[2])
        if 0 in F and F[0][0] == 1:
            ks = self.kinds(e, st, F[0][1])
            for k in sorted(ks & set(self.TABLE)):
                self.message(e, st, ins, args, F, k)
        return None

    def message(self, e, st, ins, args, F, k):
        if k in (10, 7, 8, 12, 2, 6, 9, 11, 13) and args[1] == ("c", 1):
            return
        self.sites += 1
        fs, body = self.TABLE[k]
        want = fs[-1][0] + fs[-1][1]
        if args[1] != ("c", want):
            self.report("length", "%s() sends at %s a %s of a length other than %d" % (self.fn.name, ins.where(), NAMES[k], want), st, ins)
        for o, w in fs:
            if o not in F or F[o][0] != w:
                self.report("field", "%s() sends at %s a %s in which the field of %d bytes at offset %d was not (or not entirely) filled in" % (
                    self.fn.name, ins.where(), NAMES[k], w, o), st, ins)
        for o in F:
            if o and o not in [x for x, w in fs] and 0 <= o < want:
                self.report("field", "%s() sends at %s a %s that has something at offset %d, where no field starts" % (
                    self.fn.name, ins.where(), NAMES[k], o), st, ins)


class Outgoing(Message):
    """a message of a reaction to another federate"""
    rule = "outgoing"
    ANY = True

    def before(self, e):
        self.S = SENDS[self.fn.name]
        self.bodies = 0

    def arg(self, k):
        return ("arg", self.fn.args[self.S[k]]) if k in self.S else None

    def other(self, e, st, ins, name, args):
        if name in ("lf_delay_tag", "lf_delay_strict"):
            env = [self.envtag(e, st, CUR)]
            v = ("call", name) + tuple(args)
            ok = (args[0], args[1]) in env[0] and args[2] == self.arg("delay")
            if ok:
                self.add(st, ("dl", name, v))
            return [(st, v)]
        return None

    def edge(self, e, st, bb, succ):
        for neg in (False, True):
            if self.past(e, st, neg):
                self.add(st, ("past", neg))
        return True

    def past(self, e, st, neg=False):
        """what is known about the tag of the message and the stop tag"""
        if ("past", neg) in st.ps:
            return True
        for x in self.get(st, "dl"):
            A = (("ex", x[2], 0), ("ex", x[2], 1))
            for S in self.envtag(e, st, STOP):
                m = order(e, st, A, S)
                if not m & GT and not neg or m == GT and neg:
                    return True
        return False

    def say(self, key, msg, st, ins):
        self.report(key, "%s() %s at %s" % (self.fn.name, msg, ins.where()), st, ins)

    def message(self, e, st, ins, args, F, k):
        super().message(e, st, ins, args, F, k)
        S = self.S
        if k not in S["types"]:
            self.say("type", "sends a message of a kind that it does not support", st, ins)
            return
        if "type" in S and num(F[0][1]) != self.arg("type") and F[0][1] != ("c", k):
            self.say("type", "sends a message of a kind other than the one asked for", st, ins)
        for o, n in ((1, "port"), (3, "fed"), (5, "len")):
            if n in S and (o not in F or num(F[o][1]) != self.arg(n)):
                self.say(n, "sends a message whose %s is not the one given" % {"port": "port", "fed": "federate", "len": "length"}[n], st, ins)
        if "delay" in S:
            o = 5 if k == 23 else 9
            fn = "lf_delay_strict" if k == 23 else "lf_delay_tag"
            t = [x[2] for x in self.get(st, "dl") if x[1] == fn]
            if not any((F.get(o, (0, 0))[1], F.get(o + 8, (0, 0))[1]) == (("ex", v, 0), ("ex", v, 1)) for v in t):
                self.say("tag", "sends a message whose tag is not the current tag with the delay of the connection added by %s()" % fn, st, ins)
            if k != 23 and not self.past(e, st):
                self.say("stop", "sends a message without its tag being known not to be past the stop tag", st, ins)
        direct = k in (17, 18) or k == 23 and not self.central
        self.socket(st, ins, args[0], direct)
        if ("lk",) not in st.ps:
            self.say("lock", "sends a message without holding the mutex for the sockets", st, ins)
        self.add(st, ("sent",))
        if LAYOUT[k][1]:
            self.add(st, ("hd", args[0]))

    def socket(self, st, ins, s, direct):
        so = self.so
        if direct:
            ok = s[0] == "ix" and s[1] == ("+", ("@", "_fed"), so["p2p"]) and num(s[2]) == self.arg("fed")
        else:
            ok = s == (("+", ("@", "_fed"), so["rti"]) if so["rti"] else ("@", "_fed"))
        if not ok:
            self.say("socket", "sends a message over a socket other than that of %s" % ("the federate it is for" if direct else "the coordinator"), st, ins)

    def write(self, e, st, ins, name, args):
        if args[2] == self.arg("msg"):
            self.bodies += 1
            h = self.get(st, "hd")
            if not h:
                self.say("mixed", "sends the body of a message without the header having been sent while holding the mutex", st, ins)
            elif h[0][1] != args[0]:
                self.say("mixed", "sends the body of a message over a socket other than the header", st, ins)
            if num(args[1]) != self.arg("len"):
                self.say("body", "sends a number of bytes other than the length of the message", st, ins)
            bad = [x for x in self.get(st, "rs") if e.iv(st, x[1])[:2] != (0, 0)]
            if bad:
                self.say("failed", "sends the body of a message though sending the header may have failed", st, ins)
            self.drop(st, lambda x: x[0] in ("hd", "rs"))
            v = e.fresh(st, ins)
            e.default_call(st, ins, name, args)
            self.add(st, ("bd", v))
            return [(st, v)]
        F = self.fields(st, args[2])
        if 0 not in F:
            self.say("what", "sends something other than a header and what it was given", st, ins)
        had = ("sent",) in st.ps
        if had:
            self.say("mixed", "sends something else after the header of a message", st, ins)
        super().write(e, st, ins, name, args)
        v = e.fresh(st, ins)
        e.default_call(st, ins, name, args)
        if self.get(st, "hd"):
            self.add(st, ("rs", v))
        return [(st, v)]

    def ret(self, e, st, ins, val):
        S = self.S
        self.sites += 1
        for x in self.get(st, "rs"):
            lo, hi, ne = e.iv(st, x[1])
            if lo <= 0 <= hi and 0 not in ne:
                self.say("body", "returns having sent the header of a message, but not its body", st, ins)
        if ("sent",) in st.ps:
            return
        ok = "type" in S and not any(e.pmask(st, self.arg("type"), ("c", k)) & EQ for k in S["types"])
        ok |= S["types"] == (5, 18) and self.past(e, st, True)
        if not ok:
            self.say("none", "returns without having sent the message", st, ins)
        if val is not None and e.iv(st, val)[0] <= 0 <= e.iv(st, val)[1] and 0 not in e.iv(st, val)[2]:
            self.say("told", "reports success without having sent the message", st, ins)


def outgoing(config, tier, rep):
    prog = program(config)
    rep.count("functions that send messages of reactions", 0)
    for name in SENDS:
        f = prog.mod.funcs.get(name)
        if f is None:
            raise AnalysisBroken("there is no function %s()" % name)
        c = Outgoing(prog, f, rep)
        c.central = config.startswith("fed-cent")
        c.so = {"p2p": fieldoff2(prog, FED, "sockets_for_outbound_p2p_connections"), "rti": fieldoff2(prog, FED, "socket_TCP_RTI")}
        c.run()
        rep.count("functions that send messages of reactions")
        rep.count("paths to a message or a return", c.sites)
        rep.need("messages sent in %s() in %s" % (name, config), c.sites, 1)


def fieldoff2(prog, s, f):
    from .tags import fieldoff
    return fieldoff(prog, None, s, f)


class Layout(Message):
    rule = "layout"


def layout(config, tier, rep):
    prog = program(config)
    n = 0
    for f in list(prog.mod.funcs.values()):
        if any(i.op == "call" and i.x in ENCODE for i in f.instrs()) and any(i.op == "call" and i.x in WRITE for i in f.instrs()):
            c = Layout(prog, f, rep)
            c.run()
            n += c.sites
            rep.count("functions that put messages together")
    rep.count("paths to a message", n)
    rep.need("messages in " + config, n, 2)
