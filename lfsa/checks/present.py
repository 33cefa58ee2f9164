"""What is marked as present at a tag is noted, and marked as absent before the next tag."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import each
from .tags import CUR, fieldoff
from .tags2 import Base
from .tags3 import NEVER

E_, T_, P_, S_ = "environment_t", "trigger_t", "lf_port_base_t", "lf_sparse_io_record_t"
FLAGS = {(P_, "is_present"), (T_, "status")}
ABB, ABBN, ALL, ALLN = "is_present_fields_abbreviated", "is_present_fields_abbreviated_size", "is_present_fields", "is_present_fields_size"
ADD = {"lf_atomic_fetch_add", "lf_atomic_fetch_add32", "lf_atomic_fetch_add64"}
ADDF = {"lf_atomic_add_fetch", "lf_atomic_add_fetch32", "lf_atomic_add_fetch64"}
INSERT = "_lf_insert_reactions_for_trigger"
INITS = {"environment_init", "_lf_start_time_step"}
# marks of input ports from other federates are set to unknown at each step by lf_reset_status_fields_on_input_port_triggers()
NETWORK = {"listen_to_rti_TCP", "listen_to_federates", "lf_reset_status_fields_on_input_port_triggers", "update_ports_from_staa_offsets"}


class Pres(Base):
    K = 48

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def mem(self, st, field):
        return [v for v, p, s in st.mem.values() if p and p[-1] == field]

    def fld(self, st, obj, f):
        m = st.mem.get(flow.plus(obj, fieldoff(self.prog, None, *f)))
        return m and m[0]

    def lastpath(self, ins, k):
        p = self.prog.pinfo(self.fn, ins.ops[k])[0]
        return p[-1] if p else None


def truth(e, st, v):
    while True:
        d = st.facts.get(("B", v))
        lo, hi, ne = e.iv(st, v)
        if d is None and (lo, hi) == (0, 0):
            d = False
        if d is None and (0 in ne or lo > 0 or hi < 0):
            d = True
        if d is not None or v[0] not in ("zx", "tr"):
            return d
        v = v[1]


class Mark(Pres):
    """whoever marks something as present notes where the mark is"""
    rule = "mark"
    PSLIVE = False

    def __init__(self, *a, threaded=True):
        super().__init__(*a)
        self.threaded = threaded

    def before(self, e):
        self.loops = {h for h, body in e.loops.items()
                      if any(i.op == "store" and self.lastpath(i, 1) in FLAGS for b in body for i in self.fn.blocks[b].ins)}

    def same(self, e, st, a, b):
        return a == b or e.pmask(st, a, b) == EQ

    def call(self, e, st, ins, name, args):
        if name in ADD | ADDF and self.lastpath(ins, 0) == (E_, ABBN):
            v = e.fresh(st, ins)
            self.add(st, ("slot", v if name in ADD else flow.plus(v, -1)))
            self.sites += 1
            if args[1] != ("c", 1):
                self.report("count", "%s() counts at %s other than one mark more" % (self.fn.name, ins.where()), st, ins)
            return [(st, v)]
        if name == INSERT and len(args) > 1:
            self.drop(st, lambda x: x[0] == "set" and self.same(e, st, x[1], flow.plus(args[1], fieldoff(self.prog, None, T_, "status"))))
        return None

    def store(self, e, st, ins, addr, path, val):
        p = path[-1] if path else None
        if p == (E_, ABBN):
            m = st.mem.get(addr)
            self.sites += 1
            if self.threaded or not m or val != flow.plus(m[0], 1):
                self.report("count", "%s() changes at %s the number of marks that were noted, other than by counting one more%s" % (
                    self.fn.name, ins.where(), " atomically" if self.threaded else ""), st, ins)
            else:
                self.add(st, ("slot", m[0]))
        elif p == ("*", E_, ABB):
            i = addr[2] if addr[0] == "ix" else ("c", 0)
            self.sites += 1
            if not any(e.pmask(st, i, n) == LT for n in self.mem(st, (E_, ALLN))):
                self.report("bound", "%s() notes a mark at %s where there may be no space left" % (self.fn.name, ins.where()), st, ins)
            slots = [x[1] for x in self.get(st, "slot")] + ([] if self.threaded else self.mem(st, (E_, ABBN)))
            if i not in slots:
                self.report("slot", "%s() notes a mark at %s in a place that it has not reserved" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x == ("lost", i))
            self.add(st, ("rec", val), ("used", i))
            self.drop(st, lambda x: x[0] == "set" and self.same(e, st, x[1], val))
        elif p in FLAGS and not (val[0] == "c" and val[1] in (0, 2)):
            self.sites += 1
            if ("over",) not in st.ps and not any(self.same(e, st, x[1], addr) for x in self.get(st, "rec")):
                self.add(st, ("set", addr))

    def edge(self, e, st, bb, succ):
        ns = self.mem(st, (E_, ALLN))
        for x in self.get(st, "slot"):
            if any(not e.pmask(st, x[1], n) & LT for n in ns):
                self.add(st, ("over",))
                self.drop(st, lambda y: y[0] == "set")
        if not self.threaded:
            for i in self.mem(st, (E_, ABBN)):
                if any(not e.pmask(st, i, n) & LT for n in ns):
                    self.add(st, ("over",))
                    self.drop(st, lambda y: y[0] == "set")
        for x in self.get(st, "set"):
            # a periodic timer: its mark is not looked at, as its events come from nowhere else
            t = flow.plus(x[1], -fieldoff(self.prog, None, T_, "status"))
            k, p = self.fld(st, t, (T_, "is_timer")), self.fld(st, t, (T_, "period"))
            if k is not None and p is not None and e.iv(st, p)[0] > 0 and self.true(e, st, k):
                self.drop(st, lambda y: y == x)
        if bb is not None:
            for h in self.loops:
                if succ == h and bb in e.loops[h]:
                    self.finish(e, st, "goes on to the next event", None)
                    self.drop(st, lambda x: x[0] in ("rec", "slot", "used", "over", "set"))
        return True

    def true(self, e, st, v):
        return truth(e, st, v) is True

    def finish(self, e, st, what, ins):
        if self.get(st, "set"):
            self.report("lost", "%s() %s although it marked something as present without having noted it, so the mark stays for the tags that follow" % (self.fn.name, what), st, ins)
        if ("over",) not in st.ps:
            for x in self.get(st, "slot"):
                if ("used", x[1]) not in st.ps:
                    self.report("unused", "%s() %s although it reserved a place for a mark and has not noted one there" % (self.fn.name, what), st, ins)

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        self.finish(e, st, "returns at %s" % ins.where(), ins)


class Reset(Pres):
    """all marks that were noted are removed, all marks there are if more were made than could be noted"""
    rule = "reset"
    PSLIVE = False

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        if path and path[-1] in ((E_, "execution_started"),):
            self.add(st, ("started", val))
        # the elements of the two arrays
        b, i = (addr[1], addr[2]) if addr[0] == "ix" else (addr[1], ("c", addr[2] // 8)) if addr[0] == "+" else (addr, ("c", 0))
        self.drop(st, lambda x: x[0] == "el" and x[1] == val)
        for w in (ABB, ALL):
            if any(x == ("base", b, w) for x in st.ps):
                self.add(st, ("el", val, w, i))
        if path and path[-1] in ((E_, ABB), (E_, ALL)):
            self.add(st, ("base", val, path[-1][1]))
        if path and path[-1] in ((E_, ABBN), (E_, ALLN)):
            self.add(st, ("num", val, path[-1][1]))

    def before(self, e):
        self.loops = {}
        for h, body in e.loops.items():
            for b in body:
                for i in self.fn.blocks[b].ins:
                    if i.op == "store" and i.ops[0] == ("c", 0) and self.prog.access(i)[1] == ("i", 8):
                        self.loops[h] = body

    def store(self, e, st, ins, addr, path, val):
        if path and path[-1] == (E_, ABBN):
            self.sites += 1
            if val != ("c", 0):
                self.report("size", "%s() starts at %s with a number of noted marks other than none" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x[0] in ("num", "over"))
            self.add(st, ("empty",))
            if not self.get(st, "done"):
                self.report("order", "%s() forgets at %s the marks that were noted before it has removed them" % (self.fn.name, ins.where()), st, ins)
            return
        for x in self.get(st, "el"):
            if x[1] == addr and val == ("c", 0):
                self.add(st, ("reset", x[2], x[3]))

    def edge(self, e, st, bb, succ):
        ab = [x[1] for x in self.get(st, "num") if x[2] == ABBN]
        al = [x[1] for x in self.get(st, "num") if x[2] == ALLN]
        for a in ab:
            for b in al:
                m = e.pmask(st, a, b)
                if not m & GT:
                    self.add(st, ("over", False))
                elif not m & LT:        # as many marks as there is space for: either will do
                    self.add(st, ("over", None) if m == EQ else ("over", True))
        for x in self.get(st, "started"):
            if e.iv(st, x[1])[:2] == (0, 0):
                self.add(st, ("not started",))
        for h, body in self.loops.items():
            phis = self.fn.blocks[h].phis
            if succ == h and bb not in body:
                for i in phis:
                    inc = [e.ev(st, o) for o, pb in i.x if pb == bb][0]
                    for x in self.get(st, "num"):
                        for k in (0, 1):
                            if inc == flow.plus(x[1], -k):
                                self.add(st, ("down", h, i.res, x[2], k))
                    if inc == ("c", 0):
                        self.add(st, ("up", h, i.res))
            elif succ == h:
                for x in self.get(st, "el"):
                    m = st.mem.get(x[1])
                    if m and e.iv(st, m[0])[:2] == (0, 0):
                        self.add(st, ("reset", x[2], x[3]))
                for x in self.get(st, "el") or [None]:
                    if not self.get(st, "reset") or x and ("reset", x[2], x[3]) not in st.ps:
                        self.report("skip", "%s() goes on to the next mark at %s without having removed this one" % (
                            self.fn.name, self.fn.blocks[bb].ins[-1].where()), st, None)
                for x in self.get(st, "reset") + self.get(st, "el"):
                    self.add(st, ("which", x[1] if x[0] == "reset" else x[2]))
                self.drop(st, lambda x: x[0] in ("reset", "el"))
            elif bb in body and succ not in body:
                # which loop was it?
                for i in phis:
                    v = st.env.get(i.res)
                    if v is None:
                        continue
                    for x in self.get(st, "num"):
                        if ("up", h, i.res) in st.ps and not e.pmask(st, v, x[1]) & LT:
                            self.done(st, e, x[2])
                        if any(("down", h, i.res, x[2], k) in st.ps and e.iv(st, v)[1] <= -k for k in (0, 1)):
                            self.done(st, e, x[2])
        return True

    def done(self, st, e, num):
        over = [x[1] for x in self.get(st, "over")]
        want = {False: (ABBN, ABB), True: (ALLN, ALL)}
        w = {x[1] for x in self.get(st, "which")}
        for o in over:
            if any(num == n and w <= {a} for k, (n, a) in want.items() if o in (None, k)):
                self.add(st, ("done", num))

    def ret(self, e, st, ins, val):
        self.sites += 1
        if ("not started",) in st.ps:
            return
        if not self.get(st, "done"):
            self.report("none", "%s() returns at %s without having removed all marks that were noted (all there are, if more were made than could be noted)" % (
                self.fn.name, ins.where()), st, ins)
        elif ("empty",) not in st.ps:
            self.report("size", "%s() returns at %s without having forgotten the marks that it removed" % (self.fn.name, ins.where()), st, ins)


def mark(config, tier, rep):
    prog = program(config)
    n = 0
    for f in prog.mod.funcs.values():
        if f.name in INITS | NETWORK:
            continue
        for i in f.instrs():
            k = i.op == "store" and 1 or i.op == "call" and i.callee in ADD | ADDF and -1
            if not k:
                continue
            p = prog.pinfo(f, i.ops[max(k, 0)])[0]
            if p and p[-1] in FLAGS | {(E_, ABBN), ("*", E_, ABB)}:
                n += Mark(prog, f, rep, threaded=not config.startswith("single")).run().sites
                rep.count("functions that mark something as present")
                break
    rep.count("marks on paths", n)


def reset(config, tier, rep):
    prog = program(config)
    f = prog.mod.funcs.get("_lf_start_time_step")
    if f is None:
        raise AnalysisBroken("anchor lost: _lf_start_time_step in " + config)
    rep.count("paths through the start of a step", Reset(prog, f, rep).run().sites)


class Sparse(Pres):
    """a channel of a multiport that is set is recorded once, within the bounds of the record, or the record is given up"""
    rule = "sparse"
    PSLIVE = False
    SZ, CAP, CH, REC = [("lf_sparse_io_record_t", x) for x in ("size", "capacity", "present_channels")] + [(P_, "sparse_record")]

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        f = path and path[-1]
        if f == (P_, "is_present"):
            if ("marked", addr) not in st.ps:
                self.add(st, ("was", addr, val))
        elif f in (self.SZ, self.CAP, self.CH, self.REC, (P_, "destination_channel"), (P_, "source_reactor")):
            self.add(st, ("f", f[1], addr, val))

    def call(self, e, st, ins, name, args):
        if name in ADD | ADDF and self.lastpath(ins, 0) == self.SZ:
            v = e.fresh(st, ins)
            self.sites += 1
            self.slot(e, st, ins, v if name in ADD else flow.plus(v, -1), args[1] == ("c", 1), args[0])
            return [(st, v)]
        return None

    def slot(self, e, st, ins, v, one, addr):
        if not one:
            self.report("count", "%s() counts at %s other than one channel more" % (self.fn.name, ins.where()), st, ins)
        if not self.get(st, "first"):
            self.report("twice", "%s() records a channel at %s that may have been recorded before at the same tag" % (self.fn.name, ins.where()), st, ins)
        self.add(st, ("slot", v, addr))

    def store(self, e, st, ins, addr, path, val):
        f = path[-1] if path else None
        if f == (P_, "is_present") and val == ("c", 1):
            self.add(st, ("marked", addr))
        elif f == self.SZ:
            self.sites += 1
            m = st.mem.get(addr)
            if val == ("c", -1) or val == ("c", 0xffffffff):
                self.add(st, ("given up", addr))
            elif m and val == flow.plus(m[0], 1) and not self.threaded:
                self.slot(e, st, ins, m[0], True, addr)
            else:
                self.report("size", "%s() changes at %s the number of channels recorded, other than by adding one%s" % (
                    self.fn.name, ins.where(), " atomically" if self.threaded else ""), st, ins)
        elif f == ("*",) + self.CH:
            self.sites += 1
            i = addr[2] if addr[0] == "ix" else ("c", 0)
            while i[0] in ("sx", "zx"):
                i = i[1]
            hit = [x for x in self.get(st, "slot") if self.bare(x[1]) == i]
            if not hit:
                self.report("slot", "%s() records a channel at %s in a place that it has not reserved" % (self.fn.name, ins.where()), st, ins)
            j = addr[2] if addr[0] == "ix" else ("c", 0)
            if ("within", i) not in st.ps and not any(x[1] == "capacity" and e.pmask(st, j, x[3], True) == LT for x in self.get(st, "f")):
                self.report("bound", "%s() records a channel at %s where there may be no space left" % (self.fn.name, ins.where()), st, ins)
            if not any(x[1] == "destination_channel" and self.bare(x[3]) == self.bare(val) for x in self.get(st, "f")):
                self.report("which", "%s() records something other than the channel that was set at %s" % (self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x in hit)
            self.add(st, ("recorded",))

    def bare(self, v):
        while v[0] in ("sx", "zx", "tr"):
            v = v[1]
        return v

    def ret(self, e, st, ins, val):
        self.edge(e, st, None, None)
        if not any(x[0] == "marked" for x in st.ps):
            return
        self.sites += 1
        for x in self.get(st, "slot"):
            if ("given up", x[2]) not in st.ps:
                self.report("hole", "%s() returns at %s having reserved a place in the record for a channel that it has not recorded" % (self.fn.name, ins.where()), st, ins)
        if not {("recorded",), ("excused",)} & st.ps and not self.get(st, "given up"):
            self.report("missing", "%s() returns at %s having set a channel of a multiport that it has not recorded" % (self.fn.name, ins.where()), st, ins)

    def edge(self, e, st, bb, succ):
        for x in self.get(st, "f"):
            lo, hi, ne = e.iv(st, x[3])
            if x[1] == "sparse_record" and (lo, hi) == (0, 0) or x[1] in ("destination_channel", "size") and hi < 0:
                self.add(st, ("excused",))
        for x in self.get(st, "was"):
            d = truth(e, st, x[2])
            if d is not None:
                self.add(st, ("excused",) if d else ("first", x[1]))
        return True


class Order(Pres):
    """after the tag was advanced, what was marked before is reset before anything is marked at the new tag"""
    rule = "order"
    PSLIVE = False

    def call(self, e, st, ins, name, args):
        if name == "_lf_advance_tag":
            self.sites += 1
            if ("clean",) not in st.ps:
                self.add(st, ("advanced",))
        elif name == "_lf_start_time_step":
            self.drop(st, lambda x: x == ("advanced",))
            self.add(st, ("clean",))
        elif name in ("_lf_pop_events", "_lf_trigger_startup_reactions", INSERT, "lf_set_present", "_lf_invoke_reaction"):
            self.drop(st, lambda x: x == ("clean",))
            if ("advanced",) in st.ps:
                self.report("marks", "%s() calls %s() at %s after it advanced the tag, before the marks of the previous tag are reset" % (self.fn.name, name, ins.where()), st, ins)
        return None

    def ret(self, e, st, ins, val):
        if ("advanced",) in st.ps:
            self.report("none", "%s() returns at %s having advanced the tag, and the marks of the previous tag are not reset" % (self.fn.name, ins.where()), st, ins)


def sparse(config, tier, rep):
    prog = program(config)
    for f in prog.mod.funcs.values():
        if f.name in INITS | NETWORK:
            continue
        for i in f.instrs():
            if i.op == "store" and (prog.pinfo(f, i.ops[1])[0] or (None,))[-1] == (P_, "is_present") and i.ops[0] != ("c", 0):
                c = Sparse(prog, f, rep)
                c.threaded = not config.startswith("single")
                rep.count("accesses to sparse records on paths", c.run().sites)
                rep.count("functions that set a port")
                break


def order(config, tier, rep):
    prog = program(config)
    for f in prog.mod.funcs.values():
        if any(i.op == "call" and i.callee == "_lf_advance_tag" for i in f.instrs()):
            rep.count("advances of the tag on paths", Order(prog, f, rep).run().sites)
