"""The federate's side of tag advances: what it announces, what it confirms, and when it takes a tag as granted."""
from .send import *
from .tagutil import tagat, order
from .tags import writes

F = lambda x: ("federate_instance_t", x)
MIN = F("min_delay_from_physical_action_to_federate_output")
LAST, PROV, NETS, LTCS = F("last_TAG"), F("is_last_TAG_provisional"), F("last_sent_NET"), F("last_sent_LTC")


def zerolow(v):
    return v[0] == "bin" and (v[1] == "and" and v[3][0] == "c" and not v[3][1] & 0xffffffff or v[1] == "shl" and v[3][0] == "c" and v[3][1] >= 32)


def lo32(v):
    """the low 32 bits of a number, whatever it is packed with"""
    while True:
        if v[0] in ("tr", "zx", "sx") and v[2] >= 32:
            v = v[1]
        elif v[0] == "bin" and v[1] == "and" and v[3][0] == "c" and v[3][1] & 0xffffffff == 0xffffffff:
            v = v[2]
        elif v[0] == "bin" and v[1] == "or" and zerolow(v[2]):
            v = v[3]
        elif v[0] == "bin" and v[1] == "or" and zerolow(v[3]):
            v = v[2]
        else:
            return v


class Tagged(Message):
    """tags known by the role that they have: ("t", role, time) and ("m", role, microstep)"""

    def rename(self, e, st, sub):
        super().rename(e, st, sub)
        for old, new in sub:
            for x in self.get(st, "m"):
                if lo32(old) == x[2]:
                    self.add(st, ("m", x[1], new))

    def role(self, st, r, t=None, m=None):
        if t is not None:
            self.add(st, ("t", r, t))
        if m is not None:
            self.add(st, ("m", r, lo32(m)))

    def unrole(self, st, *rs):
        self.drop(st, lambda x: x[0] in ("t", "m") and x[1] in rs)

    def isrole(self, st, r, A):
        return ("t", r, A[0]) in st.ps and A[1] is not None and ("m", r, lo32(A[1])) in st.ps

    def reborn(self, e, st, aid):
        self.drop(st, lambda x: x[0] in ("t", "m") and aid in flow.atoms(x[2]))

    def field(self, path, addr):
        """(field, part) of a tag that is accessed"""
        if path and len(path) >= 2 and path[-1] in (("tag_t", "time"), ("tag_t", "microstep")):
            o = fieldoff2(self.prog, *path[-2])
            k = 8 if path[-1][1] == "microstep" else 0
            if addr[0] == "+" and addr[1] == ("@", "_fed") and addr[2] - (o or 0) != k:
                return None, None       # padding
            return path[-2], path[-1][1]
        return None, None

    def announced(self, e, st, ins, A):
        pass

    def write(self, e, st, ins, name, args):
        G = self.fields(st, args[2])
        if G.get(0, (0, ("c", -1)))[1] == ("c", self.KIND) and args[1] != ("c", 1):
            self.sites += 1
            self.announced(e, st, ins, (G.get(1, (0, None))[1], G.get(9, (0, None))[1]))
        return None

    def known(self, e, st, f, lo=None, hi=None):
        """is every value of the field that was read on this path within the bounds?"""
        for a, (v, p, s) in st.mem.items():
            if p and p[-1] == f:
                l, h, ne = e.iv(st, v)
                t = st.facts.get(("B", v))
                if lo is not None and (l >= lo or lo == 1 and (h < 0 or 0 in ne or t is True)):
                    return True
                if hi is not None and (h <= hi and (hi or l >= 0) or t is False):
                    return True
        return False


class Ask(Tagged):
    """lf_send_next_event_tag: announces the earliest tag, and returns it only when granted, or when nobody has to grant it"""
    rule = "ask"
    KIND = 6
    K = 32

    def before(self, e):
        a = self.fn.args
        self.wait = ("arg", a[-1])
        self.p = [("arg", x) for x in a if x.startswith(a[1].split(".")[0])]

    def run(self):
        en = flow.Engine(self.prog, self.fn, self)
        self.before(en)
        st = en.start(frozenset())
        self.role(st, "next", ("arg", self.fn.args[1]), ("arg", self.fn.args[2]))
        self.role(st, "asked", ("arg", self.fn.args[1]), ("arg", self.fn.args[2]))
        en.run([st])
        return self

    def waits(self, e, st):
        v = self.wait
        for x in (v, ("zx", v, 1), ("zx", v, 8)):
            if e.iv(st, x)[:2] == (0, 0) or st.facts.get(("B", x)) is False:
                return False
        return True

    def load(self, e, st, ins, addr, path, val):
        f, part = self.field(path, addr)
        if f == LAST:
            self.role(st, "granted", **({"t": val} if part == "time" else {"m": val}))

    def store(self, e, st, ins, addr, path, val):
        super().store(e, st, ins, addr, path, val)
        f, part = self.field(path, addr)
        if f == NETS:
            if part == "time":
                self.drop(st, lambda x: x[:2] == ("t", "rec"))
                self.role(st, "rec", val)
            else:
                self.drop(st, lambda x: x[:2] == ("m", "rec"))
                self.role(st, "rec", None, val)
        if f == LAST:
            self.report("grant", "%s() changes at %s the tag granted" % (self.fn.name, ins.where()), st, ins)

    def other(self, e, st, ins, name, args):
        if name == "get_next_event_tag":
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.unrole(st, "next")
            self.drop(st, lambda x: x[0] in ("nobound", "same"))
            self.role(st, "next", ("ex", v, 0), ("ex", v, 1))
            return [(st, v)]
        if name == "lf_time_physical":
            v = e.fresh(st, ins)
            self.add(st, ("phys", v))
            return [(st, v)]
        if name in ("lf_cond_wait",):
            self.sites += 1
            self.recorded(e, st, ins)
            if not self.told(e, st):
                self.report("wait", "%s() waits at %s for a grant without having announced the earliest tag to the coordinator" % (
                    self.fn.name, ins.where()), st, ins)
        return None

    def told(self, e, st):
        for x in self.get(st, "t"):
            for y in self.get(st, "m"):
                if x[1] == y[1] == "next":
                    if self.isrole(st, "ever", (x[2], y[2])):
                        return True
        return ("same",) in st.ps

    def recorded(self, e, st, ins):
        for x in self.get(st, "t"):
            if x[1] == "sent" and ("t", "rec", x[2]) not in st.ps:
                self.report("record", "%s() goes on at %s without having recorded which tag it announced last" % (self.fn.name, ins.where()), st, ins)
                return

    def edge(self, e, st, bb, succ):
        if self.known(e, st, F("socket_TCP_RTI"), hi=-1):
            return False        # the connection is gone: there is nobody to tell
        if self.known(e, st, F("has_upstream"), hi=0):
            self.add(st, ("noup",))
        if self.known(e, st, F("has_downstream"), hi=0):
            self.add(st, ("nodown",), ("nobound",))
        if self.known(e, st, MIN, hi=-1) or not self.waits(e, st):
            self.add(st, ("nobound",))
        md = [v for v, p, s in st.mem.values() if p and p[-1] == MIN]
        ph = [x[1] for x in self.get(st, "phys")]
        nx = [x[2] for x in self.get(st, "t") if x[1] == "next"]
        for m in md:
            for p in ph:
                for s in (("bin", "add", p, m), ("bin", "add", m, p)):
                    for t in nx:
                        if not e.pmask(st, s, t) & LT:
                            self.add(st, ("nobound",))
        # a tag that was granted is at least the one that was asked for
        for k, m in list(st.facts.items()):
            if k[0] == "T":
                for X, Y in ((k[1], k[2]), (k[2], k[1])):
                    if self.isrole(st, "granted", X) and any(self.isrole(st, r, Y) for r in ("asked", "next", "ever")) and not order(e, st, X, Y) & LT:
                        self.add(st, ("enough", X[0]))
        # the earliest tag is still the one that was announced
        if ("same",) not in st.ps:
            nt = [(x[2], y[2]) for x in self.get(st, "t") for y in self.get(st, "m") if x[1] == y[1] == "next"]
            for k, m in st.facts.items():
                if k[0] == "T" and m == EQ:
                    for X, Y in ((k[1], k[2]), (k[2], k[1])):
                        if self.isrole(st, "next", X) and self.isrole(st, "ever", Y):
                            self.add(st, ("same",))
        return True

    def announced(self, e, st, ins, A):
        if not self.isrole(st, "next", A):
            self.report("what", "%s() announces at %s a tag other than that of its earliest event" % (self.fn.name, ins.where()), st, ins)
        elif ("nobound",) not in st.ps and ("told",) not in st.ps:
            self.report("bound", "%s() announces at %s a tag that a physical action may still precede" % (self.fn.name, ins.where()), st, ins)
        self.unrole(st, "sent")
        self.drop(st, lambda x: x == ("same",))
        self.role(st, "sent", *A)
        self.role(st, "ever", *A)
        self.add(st, ("told",))

    def ret(self, e, st, ins, val):
        self.sites += 1
        self.recorded(e, st, ins)
        A = pair(val)
        if A is None:
            return
        if self.isrole(st, "granted", A):
            if ("enough", A[0]) not in st.ps:
                self.report("less", "%s() returns at %s a tag that was granted, but is not known to be at least the one asked for" % (self.fn.name, ins.where()), st, ins)
            return
        ok = self.isrole(st, "next", A)
        if ok and ("noup",) in st.ps and ("nodown",) in st.ps:
            return
        if ok and self.isrole(st, "sent", A) and (("noup",) in st.ps or not self.waits(e, st)):
            return
        self.report("granted", "%s() returns at %s a tag that was neither granted nor is the announced one of a federate that nobody has to "
                    "grant a tag" % (self.fn.name, ins.where()), st, ins)


def pair(val):
    if val is not None and val[0] == "agg" and len(val) >= 3:
        return (val[1][1], val[2][1])
    if val is not None and val[0] != "agg":
        return (("ex", val, 0), ("ex", val, 1))
    return None


class Confirm(Tagged):
    """lf_latest_tag_confirmed: a tag is confirmed if it is later than the last one confirmed"""
    rule = "confirm"
    KIND = 9

    def before(self, e):
        self.p = (("arg", self.fn.args[0]), ("arg", self.fn.args[1]))

    def edge(self, e, st, bb, succ):
        for a, (v, p, s) in list(st.mem.items()):
            f, part = self.field(p, a)
            if f == LTCS and part == "time":
                m = order(e, st, tagat(e, st, a), self.pp(e, st))
                if m == LT:
                    self.add(st, ("later",))
                if not m & LT:
                    self.add(st, ("done",))
        if self.known(e, st, ("environment_t", "need_to_send_LTC"), lo=1):
            self.add(st, ("need",))
        if self.known(e, st, ("environment_t", "need_to_send_LTC"), hi=0):
            self.add(st, ("done",))
        if self.known(e, st, F("socket_TCP_RTI"), hi=-1):
            self.add(st, ("gone",))
        return True

    def pp(self, e, st):
        for k in st.facts:
            if k[0] == "T":
                for X in k[1:]:
                    if X[0] == self.p[0] and lo32(X[1]) == self.p[1]:
                        return X
        return self.p

    def store(self, e, st, ins, addr, path, val):
        super().store(e, st, ins, addr, path, val)
        f, part = self.field(path, addr)
        if f == LTCS:
            if (val if part == "time" else lo32(val)) != self.p[part != "time"]:
                self.report("record", "%s() records at %s a tag as confirmed that is not the one given" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("rec", part))

    def announced(self, e, st, ins, A):
        if A[0] != self.p[0] or A[1] is None or lo32(A[1]) != self.p[1]:
            self.report("what", "%s() confirms at %s a tag other than the one given" % (self.fn.name, ins.where()), st, ins)
        if ("later",) not in st.ps:
            self.report("later", "%s() confirms at %s a tag that is not known to be later than the last one confirmed" % (self.fn.name, ins.where()), st, ins)
        self.add(st, ("sent",))

    def ret(self, e, st, ins, val):
        self.sites += 1
        s = ("sent",) in st.ps
        if s and not (("rec", "time") in st.ps and ("rec", "microstep") in st.ps):
            self.report("record", "%s() confirms a tag without recording that it did" % self.fn.name, st, ins)
        if not s and ("done",) not in st.ps and ("gone",) not in st.ps:
            self.report("none", "%s() returns at %s without having confirmed the tag, though it is later than the last one confirmed and "
                        "confirming it is needed" % (self.fn.name, ins.where()), st, ins)


class Confirms(Base):
    """who has a tag confirmed: it is the current one, at the end of it, or an earlier one"""
    rule = "confirm"

    def call(self, e, st, ins, name, args):
        if name in ("lf_latest_tag_confirmed", "logical_tag_complete"):
            self.sites += 1
            A = (args[0], ("tr", args[1], 32)) if len(args) > 1 else None
            ok = False
            for C in self.envtag(e, st, CUR):
                for X in [(args[0], args[1]), A] + [X for k in st.facts if k[0] == "T" for X in k[1:] if X[0] == args[0] and lo32(X[1]) == lo32(args[1])]:
                    ok |= C[0] == X[0] and C[1] is not None and lo32(C[1]) == lo32(X[1]) or not order(e, st, C, X) & LT
            if not ok:
                self.report("early", "%s() has a tag confirmed at %s that may be later than the current tag" % (self.fn.name, ins.where()), st, ins)
        return None


def grants(config, tier, rep):
    prog = program(config)
    f = prog.mod.funcs.get("lf_send_next_event_tag")
    g = prog.mod.funcs.get("lf_latest_tag_confirmed")
    if f is None or g is None:
        raise AnalysisBroken("there is no function lf_send_next_event_tag() or lf_latest_tag_confirmed()")
    a, b = Ask(prog, f, rep).run(), Confirm(prog, g, rep).run()
    n = 0
    for h in list(prog.mod.funcs.values()):
        if any(i.op == "call" and i.x in ("lf_latest_tag_confirmed", "logical_tag_complete") for i in h.instrs()):
            n += Confirms(prog, h, rep).run().sites
    rep.count("paths to an announcement, a wait or a return", a.sites + b.sites)
    rep.count("paths to a confirmation", n)
    rep.need("announcements in " + config, a.sites, 3)
    rep.need("confirmations in " + config, n, 1)


class Take(Tagged):
    """what is taken as granted: never less than before, and provisionally only if the coordinator said so"""
    rule = "take"
    KIND = -1
    K = 16

    def before(self, e):
        self.stores = 0

    def load(self, e, st, ins, addr, path, val):
        if any(x[1] == flow.root(addr) for x in self.get(st, "tb")) and ins.ty == ("i", 8) and val[0] != "c":
            self.drop(st, lambda x: x[0] == "tv")
            self.add(st, ("tv", val))

    def edge(self, e, st, bb, succ):
        for x in self.get(st, "tv"):
            for v in (x[1], ("zx", x[1], 8)):
                lo, hi, ne = e.iv(st, v)
                if lo == hi:
                    self.drop(st, lambda y: y[0] in ("type", "tv"))
                    self.add(st, ("type", lo))
        self.concluded(e, st)
        return True

    def concluded(self, e, st):
        prov = self.known(e, st, PROV, lo=1)
        for L in self.envtag(e, st, LAST):
            if None in L:
                continue
            for k, m in list(st.facts.items()):
                if k[0] != "T":
                    continue
                for X, Y in ((k[1], k[2]), (k[2], k[1])):
                    if Y[0] == L[0] and lo32(Y[1]) == lo32(L[1]) and X != Y:
                        o = order(e, st, X, Y)
                        if not o & LT:
                            self.add(st, ("ge", X[0], lo32(X[1])))
                            if o == GT or prov:
                                self.add(st, ("gt", X[0], lo32(X[1])))
        for x in self.get(st, "new"):
            if x[2] is None:
                continue
            for C in self.envtag(e, st, CUR):
                for k in list(st.facts):
                    if k[0] == "T":
                        for X in k[1:]:
                            if X[0] == x[1] and lo32(X[1]) == x[2]:
                                o = order(e, st, C, X)
                                if o in (EQ, GT):
                                    self.add(st, ("cur", o))
            if e.iv(st, x[1])[0] == e.iv(st, x[1])[1] == MAXTAG[0][1]:
                self.add(st, ("forever",))

    def status(self, st, ins):
        if self.kind(st) == [8]:
            self.report("status", "%s() takes at %s the status of a port as known because of a provisional grant" % (self.fn.name, ins.where()), st, ins)

    def kind(self, st):
        return [x[1] for x in self.get(st, "type")][:1]

    def store(self, e, st, ins, addr, path, val):
        f, part = self.field(path, addr)
        if val[0] == "undef":
            return
        if path and ("trigger_t", "last_known_status_tag") in path[-2:]:
            self.status(st, ins)
        self.assign(e, st, ins, f, part, val)
        self.flag(e, st, ins, path, val)

    def assign(self, e, st, ins, f, part, val):
        if f == LAST:
            self.sites += 1
            self.concluded(e, st)
            if part == "time":
                self.drop(st, lambda x: x[0] == "new")
                self.add(st, ("new", val, None), ("flag",))
                if not any(x[1] == val for x in self.get(st, "ge")):
                    self.report("back", "%s() takes at %s a tag as granted that is not known to be at least the one granted before" % (
                        self.fn.name, ins.where()), st, ins)
            else:
                t = [x[1] for x in self.get(st, "new")]
                if t and t[0][0] != "c" and ("ge", t[0], lo32(val)) not in st.ps:
                    self.report("back", "%s() takes at %s a tag as granted that is put together of two tags" % (self.fn.name, ins.where()), st, ins)
                self.drop(st, lambda x: x[0] == "new")
                if t:
                    self.add(st, ("new", t[0], lo32(val)))
    def flag(self, e, st, ins, path, val):
        if path and path[-1] == PROV:
            k = self.kind(st)
            b = e.iv(st, val)[:2]
            self.drop(st, lambda x: x == ("flag",))
            want = {7: (0, 0), 8: (1, 1)}
            if k and k[0] in want and b != want[k[0]] and not (k[0] == 8 and b[0] == b[1] != 0):
                self.report("flag", "%s() notes at %s a grant as %s, but that is not what the coordinator said" % (
                    self.fn.name, ins.where(), "provisional" if b[1] else "not provisional"), st, ins)
            if b != (0, 0):
                for x in self.get(st, "new"):
                    if not any(y[1] == x[1] for y in self.get(st, "gt")):
                        self.report("weak", "%s() replaces at %s a grant by a provisional one for the same tag" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("prov", b[0]))

    def other(self, e, st, ins, name, args):
        if name in READ and args[1] == ("c", 1):
            e.default_call(st, ins, name, args)
            self.drop(st, lambda x: x[0] in ("tb", "type", "tv", "new", "cur", "ge", "gt", "flag", "dummy", "ltc", "mlaa", "forever", "prov"))
            self.add(st, ("tb", flow.root(args[2])))
            return [(st, e.fresh(st, ins))]
        if name.startswith("llvm.memcpy") or name == "memcpy":
            o = fieldoff2(self.prog, *LAST)
            if ("trigger_t", "last_known_status_tag") in (self.prog.pinfo(ins.fn, ins.ops[0])[0] or ()):
                self.status(st, ins)
            if args[0] == ("+", ("@", "_fed"), o) and args[2] == ("c", 16):
                t, m = tagat(e, st, args[1])
                self.assign(e, st, ins, LAST, "time", t or ("?",))
                self.assign(e, st, ins, LAST, "microstep", m or ("?",))
        if name == "lf_update_max_level" and self.get(st, "new"):
            self.add(st, ("mlaa",))
        if name == "lf_latest_tag_confirmed" and any(x[1] == args[0] for x in self.get(st, "new")):
            self.add(st, ("ltc",))
        if name == "_lf_create_dummy_events" and any(x[1] == args[1] for x in self.get(st, "new")):
            e.default_call(st, ins, name, args)
            v = e.fresh(st, ins)
            self.add(st, ("dm", v))
            return [(st, v)]
        if name == "pqueue_tag_insert" and ("dm", args[1]) in st.ps:
            self.add(st, ("dummy",))
        if name == "lf_mutex_unlock" and self.get(st, "new") and args[0] != ("@", OUT):
            self.released(e, st, ins)
            self.drop(st, lambda x: x[0] in ("new", "cur", "ge", "gt", "flag", "dummy", "ltc", "mlaa", "forever", "prov", "dm"))
        return None

    def released(self, e, st, ins):
        self.concluded(e, st)
        self.stores += 1
        if ("flag",) in st.ps:
            self.report("flag", "%s() takes a tag as granted without noting, before %s, whether provisionally" % (self.fn.name, ins.where()), st, ins)
        if self.kind(st) == [8] or ("prov", 1) in st.ps or ("prov", -1) in st.ps:
            if ("mlaa",) not in st.ps:
                self.report("level", "%s() takes a tag as provisionally granted without updating, before %s, the level up to which reactions "
                            "may execute" % (self.fn.name, ins.where()), st, ins)
            if not (("dummy",) in st.ps or ("forever",) in st.ps or ("cur", EQ) in st.ps or ("ltc",) in st.ps and ("cur", GT) in st.ps):
                self.report("ahead", "%s() takes a tag as provisionally granted without making sure, before %s, that the federate gets there "
                            "(or has confirmed it)" % (self.fn.name, ins.where()), st, ins)

    def reborn(self, e, st, aid):
        self.drop(st, lambda x: x[0] in ("tv", "new", "ge", "gt", "dm") and any(aid in flow.atoms(y) for y in x[1:] if isinstance(y, tuple)))


def taken(config, tier, rep):
    prog = program(config)
    n = 0
    for name in writes(prog, LAST):
        c = Take(prog, prog.mod.funcs[name], rep).run()
        n += c.sites
        rep.count("functions that take a tag as granted")
    rep.count("paths to a tag being taken as granted", n)
    rep.need("stores to the tag granted in " + config, n, 2)
