"""Levels wait for ports of which it is not known yet whether they are present: what limits them, what they wait for,
and what is known about ports."""
from .grant import *
from . import each

MLAA = ("@", "max_level_allowed_to_advance")
TABLES = {"c": ("@", "_lf_zero_delay_cycle_action_table"), "d": ("@", "_lf_action_table")}
SIZES = {("@", "_lf_zero_delay_cycle_action_table"): ("@", "_lf_zero_delay_cycle_action_table_size"),
         ("@", "_lf_action_table"): ("@", "_lf_action_table_size")}
DELAYS = ("@", "_lf_action_delay_table")
KNOWN_TO = ("trigger_t", "last_known_status_tag")
INT_MAX = ("c", 0x7fffffff)


def bare(v):
    while v[0] in ("tr", "zx", "sx"):
        v = v[1]
    return v


def last(path):
    """the array that this is an element of, or the field"""
    if not path:
        return None
    p = path[-1]
    return p[1:] if p[0] == "*" and len(p) == 3 else p


def number(a):
    """which element of an array the address is that of"""
    return a[2] if a[0] == "ix" else ("c", 0) if a[0] == "@" else ("c", a[2] // 8) if a[0] == "+" and a[1][0] == "@" else None


class Limit(Tagged):
    """lf_update_max_level: no level at or above that of a port that may still become present is allowed"""
    rule = "limit"
    KIND = -1
    K = 24

    def __init__(self, prog, fn, rep, fed):
        super().__init__(prog, fn, rep)
        self.fed, self.table = fed, TABLES[fed]
        self.loop = {}
        self.heads = set()
        for h, body in prog.loops(fn).items():
            if any(i.op == "load" and last(prog.access(i)[0]) == self.table for b in body for i in fn.blocks[b].ins):
                self.heads.add(h)
                self.loop[h] = body
        a = fn.args
        self.tag, self.prov = (("arg", a[0]), ("arg", a[1])), ("arg", a[2])

    def has(self, st, *k):
        return [x for x in st.ps if x[:len(k)] == k]

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        p = last(path)
        if p == self.table:
            self.drop(st, lambda x: x[0] in ("el", "tr", "rs", "re", "ix"))
            self.add(st, ("el", val, number(addr)))
        elif p == ("lf_action_base_t", "trigger") and self.has(st, "el", flow.root(addr)):
            self.add(st, ("tr", val))
        elif path and path[-1] == ("trigger_t", "reactions") and self.has(st, "tr", flow.root(addr)):
            self.add(st, ("rs", val))
        elif self.has(st, "rs", addr):
            self.add(st, ("re", val))
        elif p == ("reaction_t", "index") and self.has(st, "re", flow.root(addr)):
            self.add(st, ("ix", val))
        elif p == MLAA:
            self.add(st, ("ml", val))
        elif p == DELAYS:
            self.add(st, ("dl", val, number(addr)))

    def store(self, e, st, ins, addr, path, val):
        if last(path) != MLAA:
            return
        self.sites += 1
        self.concluded(e, st)
        if val == INT_MAX:
            if not self.has(st, "ml", val) and (("walk",) in st.ps or self.has(st, "el")):
                self.report("reset", "%s() allows all levels at %s, though it found a port whose status is not known" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("reset",))
        elif self.has(st, "acc", val):
            self.add(st, ("reset",))
            self.drop(st, lambda x: x == ("owe",))
        elif not self.has(st, "ml", val):
            self.limited(e, st, ins, val, "ml")
        self.drop(st, lambda x: x[0] == "ml")
        self.add(st, ("ml", val))

    def limited(self, e, st, ins, val, what):
        if not [x for x in self.has(st, "ix") if val in self.levels(x[1])]:
            self.report("what", "%s() limits the levels at %s to something other than the level of the port's reaction" % (self.fn.name, ins.where()), st, ins)
        elif not any(not e.pmask(st, val, m[1]) & GT for m in self.has(st, what)):
            self.report("raise", "%s() may raise at %s the limit that follows from another port" % (self.fn.name, ins.where()), st, ins)
        elif ("open",) not in st.ps or ("notphys",) not in st.ps or self.fed == "d" and ("bound",) not in st.ps or self.fed == "c" and ("pending",) not in st.ps:
            self.report("more", "%s() limits the levels at %s, though the status of that port need not be waited for" % (self.fn.name, ins.where()), st, ins)
        self.add(st, ("settled",))

    def accumulate(self, e, st, bb, h):
        """a local variable that holds the limit while the ports are looked at"""
        for i in self.fn.blocks[h].ins:
            if i.op != "phi":
                break
            body = self.loop[h]
            if not any(o == INT_MAX for o, b in i.x if b not in body):
                continue
            v = e.ev(st, [o for o, b in i.x if b == bb][0])
            if bb in body:
                if not self.has(st, "acc", v):
                    self.limited(e, st, self.fn.blocks[bb].ins[-1], v, "acc")
                    self.add(st, ("owe",))
            self.drop(st, lambda x: x[0] == "acc")
            self.add(st, ("acc", v), ("acc", ("v", i.id)))

    def levels(self, v):
        b = ("bin", "and", v, ("c", 65535))
        return (b, ("tr", b, 32), ("zx", ("tr", v, 16), 32), ("bin", "and", ("tr", v, 32), ("c", 65535)), ("zx", ("tr", v, 16), 64))

    def concluded(self, e, st):
        cur = [C for C in self.envtag(e, st, CUR) if None not in C]
        if not cur and self.envtag(e, st, CUR):
            cur = []
        for C in cur:
            o = order(e, st, C, self.tag)
            p = self.yes(e, st, self.prov)
            if o == LT or o == EQ and p is False or o == LT | EQ and p is False:
                self.add(st, ("granted",))
            if o == GT or not o & LT and p is True:
                self.add(st, ("pending",))
            for a, (v, path, s) in list(st.mem.items()):
                if path and len(path) >= 2 and path[-2] == KNOWN_TO and path[-1] == ("tag_t", "time") and self.has(st, "tr", flow.root(a)):
                    X = tagat(e, st, a)
                    if None in X:
                        continue
                    o = order(e, st, C, X)
                    if not o & GT:
                        self.add(st, ("settled",))
                    if o == GT:
                        self.add(st, ("open",))
        for a, (v, path, s) in list(st.mem.items()):
            if path and path[-1] == ("trigger_t", "is_physical") and self.has(st, "tr", flow.root(a)):
                y = self.yes(e, st, v)
                if y is not None:
                    self.add(st, ("settled",) if y else ("notphys",))
        for x in self.has(st, "ix"):
            for l in self.levels(x[1]):
                for m in self.has(st, "ml") + self.has(st, "acc"):
                    if not e.pmask(st, l, m[1]) & LT:
                        self.add(st, ("settled",))
        if self.fed == "d":
            self.exempt(e, st)

    def exempt(self, e, st):
        """ports whose connection has a delay are absent near the start"""
        no0 = no1 = False
        start = [v for a, (v, p, s) in st.mem.items() if p and p[-1] == ("@", "start_time")]
        for d in self.has(st, "dl"):
            if self.has(st, "el") and not any(x[2] == d[2] for x in self.has(st, "el")):
                continue
            z = e.pmask(st, d[1], ("c", 0))
            no0 |= not z & EQ
            no1 |= not z & GT
            for t, m in self.envtag(e, st, CUR):
                for s in start:
                    if t is not None:
                        q = e.pmask(st, t, s)
                        no0 |= not q & EQ
                        if m is not None:
                            b = e.iv(st, m)
                            no0 |= b[0] > 0 or 0 in b[2]
                            if z == EQ and q == EQ and b[0] == b[1] == 0:
                                self.add(st, ("settled",))
                            c = ("call", "lf_delay_strict", s, ("c", 0), d[1])
                            o = order(e, st, (t, m), (("ex", c, 0), ("ex", c, 1)))
                            no1 |= o == GT
                            if z == GT and not o & GT:
                                self.add(st, ("settled",))
        if no0:
            self.add(st, ("no0",))
        if no1:
            self.add(st, ("no1",))
        if ("no0",) in st.ps and ("no1",) in st.ps:
            self.add(st, ("bound",))

    def yes(self, e, st, v):
        for x in (v, ("zx", v, 1), ("zx", v, 8), ("tr", v, 1)):
            l, h, ne = e.iv(st, x)
            t = st.facts.get(("B", x))
            if l == h == 0 or t is False:
                return False
            if l > 0 or 0 in ne or t is True:
                return True
        return None

    def edge(self, e, st, bb, succ):
        self.concluded(e, st)
        bb, succ = getattr(bb, "name", bb), getattr(succ, "name", succ)
        for h, body in self.loop.items():
            if succ == h:
                self.accumulate(e, st, bb, h)
            if bb in body and succ == h:
                if ("settled",) not in st.ps:
                    self.rep.violation("limit/skip/" + self.fn.name, "%s() goes on to the next port at %s, though the status of this one is not known, and does "
                                       "not limit the levels to that of its reaction" % (self.fn.name, self.fn.blocks[bb].ins[-1].where()), trace_text(self.prog, st))
                self.drop(st, lambda x: x[0] in ("el", "tr", "rs", "re", "ix", "dl", "settled", "open", "notphys", "no0", "no1", "bound"))
                self.add(st, ("walk",))
            elif bb in body and succ not in body:
                self.add(st, ("walked",))
        return True

    def ret(self, e, st, ins, val):
        self.sites += 1
        if ("reset",) not in st.ps:
            self.report("reset", "%s() returns at %s without having first allowed all levels" % (self.fn.name, ins.where()), st, ins)
        if ("owe",) in st.ps:
            self.report("owe", "%s() returns at %s without having limited the levels to those that it found" % (self.fn.name, ins.where()), st, ins)
        if not (("walked",) in st.ps or self.fed == "c" and ("granted",) in st.ps):
            self.report("none", "%s() returns at %s without having looked at the ports, though the current tag is not granted (other than provisionally)" % (
                self.fn.name, ins.where()), st, ins)

    def reborn(self, e, st, aid):
        super().reborn(e, st, aid)
        self.drop(st, lambda x: x[0] in ("el", "tr", "rs", "re", "ix", "dl") and any(aid in flow.atoms(y) for y in x[1:] if isinstance(y, tuple)))


class Stall(Tagged):
    """lf_stall_advance_level_federation_locked: returns once the level is allowed"""
    rule = "stall"
    KIND = -1

    def load(self, e, st, ins, addr, path, val):
        pass

    def store(self, e, st, ins, addr, path, val):
        if last(path) == MLAA:
            self.report("change", "%s() changes at %s the levels that are allowed" % (self.fn.name, ins.where()), st, ins)

    def other(self, e, st, ins, name, args):
        if name in ("lf_cond_wait", "_lf_cond_timedwait", "lf_cond_timedwait"):
            self.sites += 1
            if args[0] != ("@", "lf_port_status_changed"):
                self.report("cond", "%s() waits at %s for something else than a change of the status of ports" % (self.fn.name, ins.where()), st, ins)
        return None

    def edge(self, e, st, bb, succ):
        v = ("arg", self.fn.args[-1])
        for a, (m, p, s) in st.mem.items():
            if p and p[-1] == MLAA:
                if any(e.pmask(st, x, m) == LT for x in (v, ("tr", v, 32))) or \
                        any(e.pmask(st, x, y) == LT for x in (v,) for y in (("sx", m, 32), ("zx", m, 32))):
                    self.add(st, ("less",))
        return True

    def ret(self, e, st, ins, val):
        self.sites += 1
        self.edge(e, st, None, None)
        if ("less",) not in st.ps:
            self.report("early", "%s() returns at %s without the level being known to be less than the first that has to wait" % (self.fn.name, ins.where()), st, ins)


def limits(config, tier, rep):
    prog = program(config)
    f, g = prog.mod.funcs.get("lf_update_max_level"), prog.mod.funcs.get("lf_stall_advance_level_federation_locked")
    if f is None or g is None:
        raise AnalysisBroken("there is no function lf_update_max_level() or lf_stall_advance_level_federation_locked()")
    c = Limit(prog, f, rep, "d" if config == "fed-dec" else "c").run()
    d = Stall(prog, g, rep).run()
    rep.need("levels allowed in " + config, c.sites, 3)
    rep.need("waiting for levels in " + config, d.sites, 1)
    rep.count("paths to a change of the levels that are allowed, or a return", c.sites)
    rep.count("paths to a wait for a level, or a return", d.sites)
    L = each.Loops(prog, f)
    n, seen = 0, set()
    for i in f.instrs():
        if i.op == "load":
            p = last(prog.access(i)[0])
            if p in SIZES:
                if p != c.table:
                    rep.violation("limit/table/" + f.name, "%s() looks at %s, which is not the table of ports that the coordination has to wait for" % (i.where(), p[1]))
                n += each.visit(prog, f, L, i, p, SIZES[p], rep, {}, seen)
    rep.need("loops over the ports in " + config, n, 1)
    # nobody else sets the limit
    for h in prog.mod.funcs.values():
        for i in h.instrs():
            if i.op == "store" and last(prog.access(i)[0]) == MLAA and h is not f:
                rep.violation("limit/else/" + h.name, "%s() changes at %s the levels that are allowed" % (srcfn(i), i.where()))


class Status(Tagged):
    """what is known about a port: never less than before, and whoever waits for it gets to know"""
    rule = "status"
    KIND = -1
    K = 16

    def before(self, e):
        self.stores = 0

    def load(self, e, st, ins, addr, path, val):
        pass

    def store(self, e, st, ins, addr, path, val):
        if path and len(path) >= 2 and path[-2] == KNOWN_TO and path[-1] in (("tag_t", "time"), ("tag_t", "microstep")):
            if path[-1][1] == "time":
                self.sites += 1
                old = tagat(e, st, addr)
                self.add(st, ("old", addr, old[0], old[1]), ("newt", addr, val))
            else:
                base = flow.plus(addr, -8)
                o = [x for x in st.ps if x[:2] == ("old", base)]
                t = [x for x in st.ps if x[:2] == ("newt", base)]
                if val[0] != "undef" and o and t:
                    self.taken(e, st, ins, (o[0][2], o[0][3]), (t[0][2], val))
                self.drop(st, lambda x: x[:2] in (("old", base), ("newt", base)))
        return None

    def taken(self, e, st, ins, O, N):
        if None in O or None in N or order(e, st, N, O) & LT:
            if N[0] is not None and N[0] == MAXTAG[0]:
                return self.changed(st)         # until forever: microsteps do not matter there
            self.report("back", "%s() takes at %s the status of a port as known up to a tag that is not known to be at least the one before" % (
                self.fn.name, ins.where()), st, ins)
        self.changed(st)

    def changed(self, st):
        self.add(st, ("owe",))

    def other(self, e, st, ins, name, args):
        if name.startswith("llvm.memcpy") or name == "memcpy":
            p = self.prog.pinfo(ins.fn, ins.ops[0])[0]
            if p and KNOWN_TO in p[-2:]:
                self.sites += 1
                self.taken(e, st, ins, tagat(e, st, args[0]), tagat(e, st, args[1]))
        if name == "_lf_pop_events":
            self.add(st, ("owe",))
        if name == "lf_update_max_level":
            self.drop(st, lambda x: x == ("owe",))
        if name == "lf_mutex_unlock" and args[0] != ("@", OUT):
            self.done(st, ins)
        return None

    def done(self, st, ins):
        if ("owe",) in st.ps and not self.exempt():
            self.report("level", "%s() changes what is known about a port without updating, before %s, the levels that are allowed" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x == ("owe",))

    def exempt(self):
        # it is called where the execution of a tag begins, and who calls it updates the levels
        return self.fn.name in ("_lf_pop_events", "_lf_initialize_start_tag")

    def ret(self, e, st, ins, val):
        self.done(st, ins)


def status(config, tier, rep):
    prog = program(config)
    from .tags import writes
    n = 0
    fs = dict.fromkeys(writes(prog, KNOWN_TO))
    for h in prog.mod.funcs.values():
        if any(i.op == "call" and i.x == "_lf_pop_events" for i in h.instrs()):
            fs[h.name] = None
    for name in fs:
        n += Status(prog, prog.mod.funcs[name], rep).run().sites
    rep.count("paths to a change of what is known about a port", n)
    rep.need("changes of what is known about ports in " + config, n, 3)
    f = prog.mod.funcs.get("lf_reset_status_fields_on_input_port_triggers")
    if f is None:
        raise AnalysisBroken("there is no function lf_reset_status_fields_on_input_port_triggers()")
    c = Reset(prog, f, rep).run()
    rep.count("paths to a status of a port at the beginning of a tag", c.sites)
    rep.need("statuses set in " + config, c.sites, 2)
    L, n, seen = each.Loops(prog, f), 0, set()
    for i in f.instrs():
        p = last(prog.access(i)[0]) if i.op == "load" else None
        if p in SIZES:
            n += each.visit(prog, f, L, i, p, SIZES[p], rep, {}, seen)
    rep.need("loops over the ports in " + f.name, n, 1)


class Reset(Tagged):
    """lf_reset_status_fields_on_input_port_triggers: a port is absent at a new tag, until told otherwise, only if its status is known"""
    rule = "reset"
    KIND = -1
    K = 24

    def __init__(self, prog, fn, rep):
        super().__init__(prog, fn, rep)
        self.loops = prog.loops(fn)

    def load(self, e, st, ins, addr, path, val):
        p = last(path)
        if p in SIZES:
            n = number(addr)
            self.add(st, ("el", val, bare(n) if n else None))
        if p == ("lf_action_base_t", "trigger"):
            for x in [x for x in st.ps if x[0] == "el" and x[1] == flow.root(addr)]:
                self.add(st, ("tr", val, x[2]))

    def which(self, st, a):
        for x in st.ps:
            if x[0] == "tr" and x[1] == flow.root(a):
                return x[2]
        return flow.root(a)

    def store(self, e, st, ins, addr, path, val):
        if path and path[-1] == ("trigger_t", "status"):
            self.sites += 1
            self.edge(e, st, None, None)
            lo, hi = e.iv(st, val)[:2]
            known, unknown = ("known", self.which(st, addr)) in st.ps, ("unknown", self.which(st, addr)) in st.ps
            if (lo, hi) == (2, 2) and not unknown:
                self.report("unknown", "%s() takes a port as unknown at %s whose status is known at this tag" % (self.fn.name, ins.where()), st, ins)
            elif (lo, hi) != (2, 2) and not known:
                self.report("absent", "%s() takes a port as absent at %s whose status is not known yet at this tag" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("set",))

    def other(self, e, st, ins, name, args):
        if name == "lf_tag":
            v = e.fresh(st, ins)
            self.add(st, ("now", v))
            return [(st, v)]
        if name == "lf_update_max_level":
            self.add(st, ("upd",))
        return None

    def edge(self, e, st, bb, succ):
        now = [(("ex", x[1], 0), ("ex", x[1], 1)) for x in st.ps if x[0] == "now"] + [C for C in self.envtag(e, st, CUR) if None not in C]
        for a, (v, p, s) in list(st.mem.items()):
            if p and len(p) >= 2 and p[-2] == KNOWN_TO and p[-1] == ("tag_t", "time"):
                X = tagat(e, st, a)
                for C in now:
                    if None not in X:
                        o = order(e, st, X, C)
                        if not o & LT:
                            self.add(st, ("known", self.which(st, a)))
                        if o == LT:
                            self.add(st, ("unknown", self.which(st, a)))
        bb, succ = getattr(bb, "name", bb), getattr(succ, "name", succ)
        for h, body in self.loops.items():
            if succ == h and bb in body:
                if ("set",) not in st.ps:
                    self.rep.violation("reset/none/" + self.fn.name, "%s() goes on to the next port without having set the status of this one (at %s)" % (
                        self.fn.name, self.fn.blocks[bb].ins[-1].where()), trace_text(self.prog, st))
                self.drop(st, lambda x: x[0] in ("set", "known", "unknown", "tr", "el"))
        return True

    def ret(self, e, st, ins, val):
        self.sites += 1
        if ("upd",) not in st.ps:
            self.report("level", "%s() returns at %s without updating the levels that are allowed" % (self.fn.name, ins.where()), st, ins)
