"""Rules about tag arithmetic, the clock, waiting for physical time, the barrier on the tag, and shutting down."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from .tags import CUR, STOP, INIT, fieldoff, threaded_sites, INLINE
from .tags2 import Base
from .tagutil import tagat, order

MAX, MIN = (1 << 63) - 1, -(1 << 63)
FOREVER, NEVER = ("c", MAX), ("c", MIN)


def part(val, k):
    if val[0] == "agg":
        return dict(val[1:]).get(k, ("undef",))
    return ("ex", val, k)


def isall(v):                      # UINT_MAX
    return v[0] == "c" and v[1] & 0xffffffff == 0xffffffff


def anchor(prog, name):
    f = prog.mod.funcs.get(name)
    if f is None:
        raise AnalysisBroken("anchor lost: %s in %s" % (name, prog.mod.config))
    return f


class Spec(Base):
    """checks every return path of one function"""
    def ret(self, e, st, ins, val):
        self.sites += 1
        msg = self.check(e, st, ins, val)
        if msg:
            self.report(self.key, "%s() returns at %s %s" % (self.fn.name, ins.where(), msg), st, ins)


# ---------------------------------------------------------------------------------------------------- tag arithmetic
class Compare(Spec):
    rule, key = "arith", "compare"

    def check(self, e, st, ins, val):
        a = [("arg", n) for n in self.fn.args]
        A, B = tuple(a[:2]), tuple(a[2:])
        m = order(e, st, A, B)
        mt = e.pmask(st, A[0], B[0])
        if val[0] != "c":
            # something computed: not a shape this rule can judge
            iv = e.iv(st, val)
            s = (LT if iv[0] < 0 else 0) | (EQ if iv[0] <= 0 <= iv[1] else 0) | (GT if iv[1] > 0 else 0)
        else:
            n = val[1] if val[1] < 1 << 31 else val[1] - (1 << 32)
            s = LT if n < 0 else GT if n > 0 else EQ
        if mt in (LT, GT):
            m = mt
        elif mt == EQ:
            m = e.pmask(st, A[1], B[1], True)
        else:
            m = m if m in (LT, EQ, GT) else flow.ANY
        if m & ~s & flow.ANY:
            return "a result that disagrees with the order of the two tags (time first, then microstep)"


def noover(e, st, a, b):
    """is a + b known not to overflow on this path?"""
    for x, y in ((a, b), (b, a)):
        lo, hi, _ = e.iv(st, y)
        up = hi <= 0 or e.iv(st, x)[1] + hi <= MAX or not e.pmask(st, x, ("bin", "sub", FOREVER, y)) & GT
        dn = lo >= 0 or e.iv(st, x)[0] + lo >= MIN and e.iv(st, x)[0] >= MIN or \
            not e.pmask(st, x, ("bin", "sub", NEVER, y)) & LT
        if up and dn:
            return True
    return False


def isum(v, a, b):
    if v == ("bin", "add", a, b) or v == ("bin", "add", b, a):
        return True
    return b[0] == "c" and v == flow.plus(a, b[1])


def over(e, st, a, b):
    """is a + b known to exceed the greatest time (or to reach it)?"""
    return any(not e.pmask(st, x, ("bin", "sub", FOREVER, y)) & LT for x, y in ((a, b), (b, a)))


def short(e, st, a, b):
    """is a + b known to be less than the greatest time?"""
    return any(not e.pmask(st, x, ("bin", "sub", FOREVER, y)) & (EQ | GT) for x, y in ((a, b), (b, a)))


def under(e, st, a, b):
    return any(not e.pmask(st, x, ("bin", "sub", NEVER, y)) & GT for x, y in ((a, b), (b, a)))


class TimeAdd(Spec):
    rule, key = "arith", "time-add"

    def check(self, e, st, ins, val):
        a, b = [("arg", n) for n in self.fn.args]
        isc = lambda x, c: e.iv(st, x)[:2] == (c[1], c[1])
        if val == NEVER or isc(val, NEVER):
            if not (isc(a, NEVER) or isc(b, NEVER) or under(e, st, a, b)):
                return "NEVER although neither argument is NEVER and the sum was not found to underflow"
        elif val == FOREVER or isc(val, FOREVER):
            if not (isc(a, FOREVER) or isc(b, FOREVER) or over(e, st, a, b)):
                return "FOREVER although neither argument is FOREVER and the sum was not found to overflow"
        elif isum(val, a, b):
            for x in (a, b):
                for c in (NEVER, FOREVER):
                    lo, hi, ne = e.iv(st, x)
                    if lo <= c[1] <= hi and c[1] not in ne and not (lo <= MIN and c is NEVER and False):
                        return "a sum although an argument may be NEVER or FOREVER"
            if not noover(e, st, a, b):
                return "a sum that may overflow"
        elif val in (a, b):
            o = b if val == a else a
            if not (isc(o, ("c", 0)) or isc(val, NEVER) or isc(val, FOREVER)):
                return "one of its arguments"
        else:
            return "something that is neither the sum nor a limit"


class Delay(Spec):
    rule, key = "arith", "delay"

    def check(self, e, st, ins, val):
        t, m, d = [("arg", n) for n in self.fn.args]
        R = (part(val, 0), part(val, 1))
        lo, hi, ne = e.iv(st, d)
        isc = lambda x, c: e.iv(st, x)[:2] == (c, c)
        if R == (t, m):
            if not (isc(t, MIN) or hi < 0):
                return "the unchanged tag although it is not NEVER and the interval is not negative"
        elif R[0] == FOREVER and isall(R[1]):
            if not (isc(t, MAX) or lo >= 0 and over(e, st, t, d)):
                return "FOREVER although the time does not reach it"
        elif R == (t, flow.plus(m, 1)):
            if not isc(d, 0):
                return "the next microstep although the interval is not zero"
            if not (MAX in e.iv(st, t)[2] or e.iv(st, t)[1] < MAX or short(e, st, t, d)):
                return "the next microstep although the time may be FOREVER"
        elif isum(R[0], t, d) and R[1] == ("c", 0):
            if not lo > 0 and not (lo >= 0 and 0 in ne):
                return "microstep zero of the sum although the interval may be zero or negative"
            if not noover(e, st, t, d):
                return "a sum that may overflow"
            if not short(e, st, t, d):
                return "a sum that may be FOREVER with a microstep other than that of FOREVER_TAG"
        else:
            return "something that is not the tag delayed by the interval"


class Strict(Spec):
    rule, key = "arith", "strict"

    def call(self, e, st, ins, name, args):
        if name == "lf_delay_tag":
            v = e.fresh(st, ins)
            if tuple(args) == tuple(("arg", n) for n in self.fn.args):
                self.add(st, ("dt", v))
            return [(st, v)]

    def check(self, e, st, ins, val):
        d = ("arg", self.fn.args[2])
        R = (part(val, 0), part(val, 1))
        for x in st.ps:
            v = x[1]
            D = (("ex", v, 0), ("ex", v, 1))
            lim = [c for c in (MIN, MAX) if e.iv(st, D[0])[:2] == (c, c)]
            if R == D:
                if not (lim or e.iv(st, d)[:2] in ((0, 0), (MIN, MIN), (MAX, MAX)) or e.iv(st, d)[1] <= 0):
                    return "the delayed tag itself although the interval is positive and the tag finite"
                return None
            if R[0] == flow.plus(D[0], -1) and isall(R[1]):
                if e.iv(st, d)[:2] == (0, 0) or lim:
                    return "the tag before the delayed one although the interval is zero or the tag is infinite"
                if e.iv(st, d)[0] <= 0 <= e.iv(st, d)[1] and 0 not in e.iv(st, d)[2]:
                    return "the tag before the delayed one although the interval may be zero"
                if any(e.iv(st, D[0])[0] <= c <= e.iv(st, D[0])[1] and c not in e.iv(st, D[0])[2] for c in (MIN, MAX)):
                    return "the tag before one that may be infinite"
                return None
        return "something other than the delayed tag or the tag just before it"


class TagAdd(Spec):
    rule, key = "arith", "tag-add"

    def call(self, e, st, ins, name, args):
        if name == "lf_time_add":
            v = e.fresh(st, ins)
            a = [("arg", n) for n in self.fn.args]
            if set(args) == {a[0], a[2]}:
                self.add(st, ("sum", v))
            return [(st, v)]

    def check(self, e, st, ins, val):
        a0, a1, b0, b1 = [("arg", n) for n in self.fn.args]
        R = (part(val, 0), part(val, 1))
        sums = [x[1] for x in st.ps]
        if not sums:
            return "a tag without having added the times (lf_time_add)"
        s = sums[0]
        iv = e.iv(st, s)
        if R[0] == NEVER and R[1] == ("c", 0):
            return None if iv[:2] == (MIN, MIN) else "NEVER although the time is not"
        if R[0] == FOREVER and isall(R[1]):
            if iv[:2] == (MAX, MAX):
                return None
            for m in (a1, ("c", 0)):
                t = b1 if m == ("c", 0) else ("bin", "add", a1, b1)
                if not e.pmask(st, t, m, True) & (EQ | GT) or not e.pmask(st, t, b1, True) & (EQ | GT):
                    return None
            return "FOREVER although neither the time nor the microstep overflows"
        if R[0] != s:
            return "a time that is not the sum of the times"
        for c in (MIN, MAX):
            if iv[0] <= c <= iv[1] and c not in iv[2]:
                return "a finite tag although the sum of the times may be infinite"
        if e.iv(st, b0)[0] > 0:
            return None if R[1] == b1 or isum(R[1], ("c", 0), b1) else \
                "a microstep that is not reset although the added time is positive"
        if e.iv(st, b0)[1] > 0:
            return "the microstep of the first tag although the added time may be positive"
        if not isum(R[1], a1, b1):
            return "a microstep that is not the sum of the microsteps"
        if e.pmask(st, R[1], a1, True) & LT and e.pmask(st, R[1], b1, True) & LT:
            return "a microstep that may have wrapped around"


def arith(config, tier, rep):
    prog = program(config)
    n = 0
    for name, cls in (("lf_tag_compare", Compare), ("lf_time_add", TimeAdd), ("lf_delay_tag", Delay),
                      ("lf_delay_strict", Strict), ("lf_tag_add", TagAdd)):
        n += cls(prog, anchor(prog, name), rep).run().sites
        rep.count("tag operations")
    rep.count("return paths of tag operations", n)


# -------------------------------------------------------------------------------------------------------------- clock
class Gettime(Base):
    """the physical time that is returned was installed as the last one read, and was not less than the previous one"""
    rule = "clock"

    def call(self, e, st, ins, name, args):
        if name == "_lf_clock_gettime":
            v = e.fresh(st, ins)
            e.havoc(st)
            r = self.add(st, ("read", v))
            return [(st, v)]
        if name == "lf_atomic_fetch_add64":
            v = e.fresh(st, ins)
            return [(st, v)]
        if name in ("lf_atomic_bool_compare_and_swap64", "lf_atomic_val_compare_and_swap64"):
            self.sites += 1
            old, new = args[1], args[2]
            if e.pmask(st, new, old) & LT and new != flow.plus(old, 1):
                self.report("monotone", "%s() records at %s a physical time that may be less than the one read last" % (
                    self.fn.name, ins.where()), st, ins)
            self.drop(st, lambda x: x[0] == "set")
            v = e.fresh(st, ins)
            if "bool" in name:
                other = st.copy()
                e.rel(st, v, ("c", 0), LT | GT)
                self.add(st, ("set", new))
                return [(st, ("c", 1)), (other, ("c", 0))]
            other = st.copy()
            self.add(st, ("set", new))
            e.rel(other, v, old, LT | GT)
            return [(st, old), (other, v)]
        return None

    def ret(self, e, st, ins, val):
        if e.iv(st, val)[1] < 0 or val[0] == "c" and val[1] not in (0,):
            return
        out = st.mem.get(("arg", self.fn.args[0]))
        if not any(x[0] == "set" and out is not None and out[0] == x[1] for x in st.ps):
            self.report("installed", "%s() returns at %s a physical time that it did not install as the last one read"
                        % (self.fn.name, ins.where()), st, ins)


class Adjusted(Base):
    """sleeping until a physical time removes the offset that reading the clock adds, and changes nothing else"""
    rule = "clock"

    def call(self, e, st, ins, name, args):
        if name in ("clock_sync_subtract_offset", "clock_sync_add_offset"):
            m = st.mem.get(args[0])
            v = e.fresh(st, ins)
            if m is not None:
                self.drop(st, lambda x: x[0] == "adj")
                if m[0] == self.time and name == "clock_sync_subtract_offset":
                    self.add(st, ("adj", ("ex", v, 9)))
                st.mem[args[0]] = (("ex", v, 9),) + m[1:]
            return [(st, v)]
        if name in ("_lf_cond_timedwait", "_lf_interruptable_sleep_until_locked"):
            self.sites += 1
            if ("adj", args[1]) not in st.ps:
                self.report("offset", "%s() sleeps at %s until a time that is not the one requested minus the offset of "
                            "the synchronized clock" % (self.fn.name, ins.where()), st, ins)
            if args[0] != ("arg", self.fn.args[0]):
                self.report("offset", "%s() waits at %s for something else than it was asked to" % (
                    self.fn.name, ins.where()), st, ins)
            v = e.fresh(st, ins)
            self.add(st, ("slept", v))
            return [(st, v)]
        return None

    def ret(self, e, st, ins, val):
        if ("slept", val) not in st.ps:
            self.report("result", "%s() returns at %s something else than the result of the sleep" % (
                self.fn.name, ins.where()), st, ins)


class Offset(Base):
    """what is added when reading the clock is what is subtracted when sleeping"""
    rule = "clock"

    def call(self, e, st, ins, name, args):
        if name == "lf_time_add":
            v = e.fresh(st, ins)
            self.add(st, ("sum", v, args[0], args[1]))
            return [(st, v)]

    def ret(self, e, st, ins, val):
        self.sites += 1
        a = ("arg", self.fn.args[0])
        m = st.mem.get(a)
        x = [x for x in st.ps if x[0] == "sum" and m is not None and m[0] == x[1]]
        self.result = self.norm(st, x[0][3]) if x else ("none",) if m is None or m[1] is None else ("?", m[0])

    def norm(self, st, v):
        """a linear combination of loaded values, as a set of (name, sign)"""
        names = {m[0]: a for a, m in st.mem.items()}
        out = {}

        def go(v, s):
            if v[0] == "bin" and v[1] in ("add", "sub"):
                go(v[2], s)
                go(v[3], s if v[1] == "add" else -s)
            elif v[0] == "neg":
                go(v[1], -s)
            elif v[0] == "+":
                go(v[1], s)
                out["const"] = out.get("const", 0) + s * v[2]
            elif v[0] == "c":
                out["const"] = out.get("const", 0) + s * v[1]
            else:
                k = names.get(v, v)
                out[k] = out.get(k, 0) + s
        go(v, 1)
        return {k: n for k, n in out.items() if n}


class Timedwait(Spec):
    """waiting with a timeout says so exactly when the timeout was reached"""
    rule, key = "clock", "timeout"
    ETIMEDOUT = 110

    def call(self, e, st, ins, name, args):
        if name == "pthread_cond_timedwait":
            v = e.fresh(st, ins)
            self.add(st, ("w", v))
            return [(st, v)]

    def check(self, e, st, ins, val):
        w = [x[1] for x in st.ps if x[0] == "w"]
        if not w:
            return "without waiting"
        n = self.ETIMEDOUT
        lo, hi, ne = e.iv(st, w[0])
        timed = (lo, hi) == (n, n)
        maybe = lo <= n <= hi and n not in ne
        one = val[0] == "c" and val[1] == 1
        if one and not timed:
            return "LF_TIMEOUT although the wait was not found to time out"
        if not one and (timed or maybe):
            return "something else than LF_TIMEOUT although the wait may have timed out"


class WaitUntil(Base):
    """waiting for a physical time completes only when that time was reached (or time does not matter)"""
    rule = "wait"
    MINSLEEP = 10000

    def call(self, e, st, ins, name, args):
        if name == "lf_time_physical":
            v = e.fresh(st, ins)
            self.add(st, ("phys", v))
            return [(st, v)]
        if name == "lf_clock_cond_timedwait":
            v = e.fresh(st, ins)
            e.havoc(st)
            if args[0] == ("arg", self.fn.args[1]) and args[1] == ("arg", self.fn.args[0]):
                self.add(st, ("timed", v))
            return [(st, v)]
        if name == "lf_clock_interruptable_sleep_until_locked":
            v = e.fresh(st, ins)
            e.havoc(st)
            if args[1] == ("arg", self.fn.args[1]):
                self.add(st, ("slept", v))
            return [(st, v)]

    def ret(self, e, st, ins, val):
        self.sites += 1
        s = st.copy()
        single = self.prog.mod.config.startswith("single")
        if val[0] == "c":
            if (val[1] != 0) == single:
                return
        elif not e.assume(s, ("cmp", "eq" if single else "ne", val, ("c", 0)), True):
            return
        t = ("arg", self.fn.args[1 if single else 0])
        for a, m in s.mem.items():
            if a == ("@", "fast") and (0 in e.iv(s, m[0])[2] or e.iv(s, m[0])[0] > 0):
                return
        for x in s.ps:
            if x[0] == "timed" and e.iv(s, x[1])[:2] == (1, 1):
                return
            if x[0] == "slept" and (val == x[1] or e.iv(s, x[1])[:2] == (0, 0)):
                return
            if x[0] == "phys":
                if e.iv(s, ("bin", "sub", t, x[1]))[1] <= self.MINSLEEP or not e.pmask(s, t, x[1]) & GT:
                    return
        self.report("early", "%s() reports at %s that it waited until the given time on a path on which that time was "
                    "neither reached nor within the least time worth sleeping, and the fast option was not found to be set" % (
                        self.fn.name, ins.where()), st, ins)


class Sleep(Spec):
    rule, key = "wait", "sleep"

    def call(self, e, st, ins, name, args):
        if name == "lf_time_physical":
            v = e.fresh(st, ins)
            self.add(st, ("phys", v))
            return [(st, v)]
        if name in ("lf_sleep", "lf_nanosleep"):
            v = e.fresh(st, ins)
            t = ("arg", self.fn.args[1])
            if any(x[0] == "phys" and args[0] == ("bin", "sub", t, x[1]) for x in st.ps):
                self.add(st, ("slept", v))
            return [(st, v)]

    def check(self, e, st, ins, val):
        t = ("arg", self.fn.args[1])
        if val[0] == "c" and val[1] != 0:
            return None
        if ("slept", val) in st.ps:
            return None
        if any(x[0] == "slept" and e.iv(st, x[1])[:2] == (0, 0) for x in st.ps):
            return None
        if any(x[0] == "phys" and (e.iv(st, ("bin", "sub", t, x[1]))[1] <= 0 or not e.pmask(st, t, x[1]) & GT)
               for x in st.ps):
            return None
        return "success although the time was not reached"


def clock(config, tier, rep):
    prog = program(config)
    single = config.startswith("single")
    n = Gettime(prog, anchor(prog, "lf_clock_gettime"), rep).run().sites
    rep.count("updates of the last physical time", n)
    rep.need("updates of the last physical time in " + config, n, 1)
    for name, k in (("lf_clock_cond_timedwait", 1), ("lf_clock_interruptable_sleep_until_locked", 1)):
        f = prog.mod.funcs.get(name)
        if f is None:
            continue
        c = Adjusted(prog, f, rep)
        c.time = ("arg", f.args[1])
        c.run()
        rep.count("sleeps until a synchronized time", c.sites)
    res = []
    for name in ("clock_sync_add_offset", "clock_sync_subtract_offset"):
        c = Offset(prog, anchor(prog, name), rep)
        c.result = ("none",)
        c.run()
        res.append(c.result)
    a, b = res
    ok = a == b == ("none",) or isinstance(a, dict) and isinstance(b, dict) and a == {k: -n for k, n in b.items()}
    rep.count("clock adjustments")
    if not ok:
        rep.violation("clock/offset/clock_sync_subtract_offset", "clock_sync_subtract_offset() (%s) does not undo "
                      "clock_sync_add_offset() (%s)" % (b, a), [])
    if not single:
        f = anchor(prog, "_lf_cond_timedwait")
        rep.count("timed waits", Timedwait(prog, f, rep).run().sites)


def wait(config, tier, rep):
    prog = program(config)
    f = anchor(prog, "wait_until")
    rep.count("return paths of wait_until", WaitUntil(prog, f, rep).run().sites)
    if config.startswith("single"):
        f = anchor(prog, "_lf_interruptable_sleep_until_locked")
        rep.count("return paths of sleeping", Sleep(prog, f, rep).run().sites)


# ------------------------------------------------------------------------------------------------------------ barrier
REQ = ("_lf_tag_advancement_barrier", "requestors")
HOR = ("_lf_tag_advancement_barrier", "horizon")
COND = "global_tag_barrier_requestors_reached_zero"


class Barrier(Base):
    rule = "barrier"
    KEEPENV = True

    def before(self, e):
        self.inits = {}

    def load(self, e, st, ins, addr, path, val):
        Base.load(self, e, st, ins, addr, path, val)
        for fld in (REQ,):
            if path and path[-1] == fld and not any(x[0] == "req0" for x in st.ps):
                self.add(st, ("req0", val, addr))
        if len(path) >= 2 and path[-2] == HOR and path[-1][1] == "microstep" and \
                not any(x[0] == "hor0" for x in st.ps):
            self.add(st, ("hor0", tagat(e, st, flow.plus(addr, -8)), addr))

    def req(self, st):
        for a, (v, p, s) in st.mem.items():
            if p and p[-1] == REQ:
                return v
        return None

    def hor(self, e, st):
        for a, (v, p, s) in st.mem.items():
            if p and len(p) >= 2 and p[-2] == HOR and p[-1][1] == "time":
                return tagat(e, st, a)
        return None

    def call(self, e, st, ins, name, args):
        if name in ("lf_cond_wait",):
            self.sites += 1
            e.havoc(st)
            self.add(st, ("slept",))
            return [(st, e.fresh(st, ins))]
        if name in ("lf_cond_broadcast", "lf_cond_signal"):
            self.add(st, ("woke", name))
        return None


class Raise(Barrier):
    def ret(self, e, st, ins, val):
        self.sites += 1
        a = [("arg", n) for n in self.fn.args]
        T = (a[1], a[2])
        r0 = [x for x in st.ps if x[0] == "req0"]
        r = self.req(st)
        where = (self.fn.name, ins.where())
        if not r0 or r != flow.plus(r0[0][1], 1):
            self.report("count", "%s() returns at %s without having counted one more requestor of the barrier" % where, st, ins)
        H = self.hor(e, st)
        H0 = [x[1] for x in st.ps if x[0] == "hor0"]
        C = self.envtag(e, st, CUR)
        if H is None or not C:
            self.report("horizon", "%s() returns at %s without having looked at the horizon of the barrier and the current tag" % where, st, ins)
            return
        C = C[0]
        for S in self.envtag(e, st, STOP):
            if order(e, st, T, S) == GT:
                T = S                  # nothing happens after the stop tag
        if H == (C[0], flow.plus(C[1], 1) if C[1] else None):
            if order(e, st, T, C) & GT:
                self.report("horizon", "%s() returns at %s with the barrier at the next microstep although the requested "
                            "tag may be later" % where, st, ins)
        elif H == T or not order(e, st, H, T) & GT:
            if order(e, st, T, C) & (LT | EQ) and H == T:
                self.report("horizon", "%s() returns at %s with the barrier at a tag that may not be after the current "
                            "one" % where, st, ins)
            if H == T and (not H0 or order(e, st, T, H0[0]) & GT):
                self.report("lowered", "%s() returns at %s having moved the barrier without having found the requested "
                            "tag to be before it: an earlier request would be lost" % where, st, ins)
        else:
            self.report("horizon", "%s() returns at %s with the barrier at a tag that may be after the requested one" %
                        where, st, ins)


class Lower(Barrier):
    def ret(self, e, st, ins, val):
        self.sites += 1
        where = (self.fn.name, ins.where())
        r0 = [x for x in st.ps if x[0] == "req0"]
        r = self.req(st)
        if not r0 or r is None or r != flow.plus(r0[0][1], -1):
            self.report("count", "%s() returns at %s without having counted one requestor of the barrier less" % where, st, ins)
            return
        lo, hi, ne = e.iv(st, r)
        h = self.hor(e, st)
        reset = h is not None and h[0] == FOREVER
        if lo <= 0 <= hi and 0 not in ne:
            if not reset:
                self.report("reset", "%s() returns at %s without having removed the barrier although no requestor may be "
                            "left" % where, st, ins)
            if not any(x[0] == "woke" and x[1] == "lf_cond_broadcast" for x in st.ps):
                self.report("wake", "%s() returns at %s without having woken the threads that wait at the barrier "
                            "although no requestor may be left" % where, st, ins)
        if (lo, hi) != (0, 0) and reset:
            self.report("open", "%s() returns at %s having removed the barrier although a requestor may be left" % where,
                        st, ins)


class Pass(Barrier):
    """the barrier is passed only when nobody asks for it or the tag is before it"""
    def ret(self, e, st, ins, val):
        self.sites += 1
        a = [("arg", n) for n in self.fn.args]
        T = (a[1], a[2])
        r = self.req(st)
        H = self.hor(e, st)
        S = self.envtag(e, st, STOP)
        slept = ("slept",) in st.ps
        where = (self.fn.name, ins.where())
        zero = val[0] == "c" and val[1] == 0
        if slept and e.iv(st, val)[0] <= 0 <= e.iv(st, val)[1] and 0 not in e.iv(st, val)[2]:
            self.report("result", "%s() returns at %s that no wait occurred although one did" % where, st, ins)
        ok = r is not None and e.iv(st, r)[1] <= 0
        if not ok and H is not None:
            for X in [T] + S + [k[i] for k in st.facts if k[0] == "T" for i in (1, 2)]:
                if order(e, st, X, H) == LT and X != H and self.target(e, st, X, T, S):
                    ok = True
        if not ok and any(e.iv(st, X[0])[:2] == (MAX, MAX) for X in [T] + S if X[0]):
            ok = True
        if not ok and any(x[0] == "forever" for x in st.ps):
            ok = True
        if not ok:
            self.report("pass", "%s() returns at %s although a requestor may be left and the tag was not found to be "
                        "before the barrier" % where, st, ins)

    def target(self, e, st, X, T, S):
        """X is the tag asked about, or the stop tag, whichever is less"""
        if X == T or X in S:
            return True
        return all(self.src(x, set()) for x in X if x is not None)

    def src(self, x, seen):
        """does this value come from the tag asked about or from the stop tag?"""
        if x in (("arg", self.fn.args[1]), ("arg", self.fn.args[2])):
            return True
        i = self.prog.atom_ins(x[1]) if x[0] == "v" else None
        return i is not None and self.insrc(i, seen)

    def insrc(self, i, seen):
        if i.id in seen:
            return True
        seen.add(i.id)
        if i.op == "load":
            p = self.prog.access(i)[0]
            return len(p) >= 2 and p[-2] == STOP
        if i.op == "phi":
            return all(o[1] in self.fn.args[1:3] or o[0] == "%" and o[1] in self.fn.defs and
                       self.insrc(self.fn.defs[o[1]], seen) for o, _ in i.x)
        return False


def barrier(config, tier, rep):
    prog = program(config)
    n = 0
    for name, cls in (("_lf_increment_tag_barrier_locked", Raise), ("_lf_decrement_tag_barrier_locked", Lower),
                      ("_lf_wait_on_tag_barrier", Pass)):
        n += cls(prog, anchor(prog, name), rep).run().sites
        rep.count("barrier operations")
    rep.count("paths through barrier operations", n)


# ----------------------------------------------------------------------------------------------------------- shutdown
class Shutdown(Base):
    """shutdown reactions are triggered exactly when the tag advances to the stop tag; no tag after it is reached"""
    rule = "shutdown"

    def call(self, e, st, ins, name, args):
        if name == "get_next_event_tag":
            # at most the stop tag (rule next_event)
            v = e.fresh(st, ins)
            stops = self.envtag(e, st, STOP)
            for S in stops:
                e.tagfact(st, (("ex", v, 0), ("ex", v, 1)), S, LT | EQ)
            if not stops:
                self.add(st, ("lim", v))
            return [(st, v)]
        if name == "_lf_advance_tag" and len(args) == 3:
            st.mem = dict(st.mem)
            off = fieldoff(self.prog, None, "environment_t", "current_tag")
            base = flow.plus(args[0], off)
            p = (CUR, ("tag_t", "time"))
            self.move(e, st, ins, base, (args[1], args[2]))
            e.default_call(st, ins, name, args)
            st.mem[base] = (args[1], p, 8)
            st.mem[flow.plus(base, 8)] = (args[2], (CUR, ("tag_t", "microstep")), 4)
            return [(st, e.fresh(st, ins))]
        if name == "_lf_trigger_shutdown_reactions":
            self.sites += 1
            C, S = self.envtag(e, st, CUR), self.envtag(e, st, STOP)
            if not (C and S and not order(e, st, C[0], S[0]) & LT):
                self.report("early", "%s() triggers the shutdown reactions at %s on a path where the current tag was not "
                            "found to have reached the stop tag" % (self.fn.name, ins.where()), st, ins)
            self.add(st, ("done",))
        return None

    def load(self, e, st, ins, addr, path, val):
        Base.load(self, e, st, ins, addr, path, val)
        if len(path) >= 2 and path[-2] == STOP and path[-1][1] == "microstep":
            S = tagat(e, st, flow.plus(addr, -8))
            for x in list(st.ps):
                if x[0] == "lim":
                    e.tagfact(st, (("ex", x[1], 0), ("ex", x[1], 1)), S, LT | EQ)

    def store(self, e, st, ins, addr, path, val):
        if len(path) < 2 or path[-2] != CUR or val[0] == "undef":
            return
        if path[-1][1] == "time":
            self.move(e, st, ins, addr, (val, None))

    def move(self, e, st, ins, addr, new):
        """the current tag is about to be set"""
        self.drop(st, lambda x: x[0] == "done")
        self.add(st, ("moved",))
        stops, old, val = self.envtag(e, st, STOP), tagat(e, st, addr), new[0]
        if new[1] is None:
            cands = [X for k in st.facts if k[0] == "T" for X in (k[1], k[2]) if X[0] == val]
        else:
            cands = [new]
        for S in stops:
            # the stop tag was not reached yet
            if not (order(e, st, old, S) == LT or any(order(e, st, X, S) == LT for X in cands)):
                self.report("past", "%s() advances the current tag at %s on a path where the stop tag may have been "
                            "reached already" % (self.fn.name, ins.where()), st, ins)
            if not any(X == S or not order(e, st, X, S) & GT for X in cands) and val != S[0] and \
                    e.pmask(st, val, S[0]) & GT:
                self.report("beyond", "%s() advances the current tag at %s to a tag not known to be at most the stop "
                            "tag" % (self.fn.name, ins.where()), st, ins)
        if not stops:
            self.report("past", "%s() advances the current tag at %s without having compared with the stop tag" % (
                self.fn.name, ins.where()), st, ins)

    def ret(self, e, st, ins, val):
        if ("moved",) not in st.ps or ("done",) in st.ps:
            return
        C, S = self.envtag(e, st, CUR), self.envtag(e, st, STOP)
        if not (C and S and order(e, st, C[0], S[0]) == LT):
            self.report("missed", "%s() returns at %s after it advanced the tag, without having triggered the shutdown "
                        "reactions, on a path where the stop tag may have been reached" % (self.fn.name, ins.where()), st, ins)


class ShouldStop(Spec):
    rule, key = "shutdown", "stop-early"

    def check(self, e, st, ins, val):
        s = st.copy()
        if val[0] == "c":
            if val[1] == 0:
                return None
        elif not e.assume(s, ("cmp", "ne", val, ("c", 0)), True):
            return None
        C, S = self.envtag(e, s, CUR), self.envtag(e, s, STOP)
        if not (C and S and not order(e, s, C[0], S[0]) & LT):
            return "that execution should stop on a path where the current tag was not found to have reached the stop tag"


class AdvanceStop(Spec):
    """the scheduler stops only when the stop tag was completed, and then does not advance any more"""
    rule, key = "shutdown", "advance"

    def call(self, e, st, ins, name, args):
        if name == "should_stop_locked":
            v = e.fresh(st, ins)
            self.add(st, ("ss", v))
            return [(st, v)]
        if name == "_lf_next_locked":
            self.sites += 1
            if not any(e.iv(st, x[1])[:2] == (0, 0) or e.decide(st, x[1]) is False for x in st.ps if x[0] == "ss"):
                self.report("on", "%s() advances the tag at %s without having found that execution should go on" % (
                    self.fn.name, ins.where()), st, ins)
        return None

    def check(self, e, st, ins, val):
        if val[0] == "c" and val[1] == 0:
            return None
        for x in st.ps:
            if x[0] == "ss" and (val == x[1] or e.decide(st, x[1]) or 0 in e.iv(st, x[1])[2] or e.iv(st, x[1])[0] > 0):
                return None
        s = st.copy()
        if val[0] != "c" and not e.assume(s, ("cmp", "ne", val, ("c", 0)), True):
            return None
        return "that execution should stop although the stop tag was not found to be completed"


class StepStop(Spec):
    """single-threaded: execution goes on exactly while the stop tag was not reached"""
    rule, key = "shutdown", "step"

    def check(self, e, st, ins, val):
        for z in (False, True):
            s = st.copy()
            if val[0] == "c":
                if (val[1] == 0) != z:
                    continue
            elif not e.assume(s, ("cmp", "eq" if z else "ne", val, ("c", 0)), True):
                continue
            C, S = self.envtag(e, s, CUR), self.envtag(e, s, STOP)
            m = order(e, s, C[0], S[0]) if C and S else flow.ANY
            if z and m & LT:
                return "that execution should stop although the stop tag may not have been reached"
            if not z and m & (EQ | GT):
                return "that execution should go on although the stop tag may have been reached"


def shutdown(config, tier, rep):
    single = config.startswith("single")
    prog = program(config, inline=INLINE if single else INLINE - {"_lf_advance_tag"})
    sites = set(threaded_sites(prog))
    n = 0
    for f in list(prog.mod.funcs.values()):
        if any(i.op == "call" and i.x == "_lf_advance_tag" for i in f.instrs()):
            sites.add(f.name)
    for name in sorted(sites):
        n += Shutdown(prog, prog.mod.funcs[name], rep).run().sites
        rep.count("functions that advance the tag")
    if single:
        n += StepStop(prog, anchor(prog, "_lf_do_step"), rep).run().sites
    else:
        n += ShouldStop(prog, anchor(prog, "should_stop_locked"), rep).run().sites
        n += AdvanceStop(prog, anchor(prog, "_lf_sched_advance_tag_locked"), rep).run().sites
    for f in list(prog.mod.funcs.values()):
        if f.name not in sites and any(i.op == "call" and i.x == "_lf_trigger_shutdown_reactions" for i in f.instrs()):
            c = Shutdown(prog, f, rep)
            c.store = lambda *a: None
            c.ret = lambda *a: None
            n += c.run().sites
    rep.count("paths to shutting down", n)
    rep.need("functions that advance the tag in " + config, len(sites), 1)
