"""What a sleeping thread waits for is announced before the lock is released."""
from .. import flow
from ..common import *
from ..flow import LT, EQ, GT
from . import locks
from .tags import fieldoff
from .tags2 import Base

SIGNAL = {"lf_cond_signal", "lf_cond_broadcast", "pthread_cond_signal", "pthread_cond_broadcast"}
WAITS = {"lf_cond_wait", "lf_clock_cond_timedwait", "_lf_cond_timedwait", "pthread_cond_wait", "pthread_cond_timedwait"}
# calls that announce a change of the queue of their first argument
NOTIFY = {"_lf_unthreaded_notify_of_event"}
INSERT = {"pqueue_tag_insert", "pqueue_tag_insert_if_no_match", "pqueue_tag_insert_tag", "pqueue_insert"}
ENV = "environment_t"
# what changes -> (struct, condition): the condition in the same object, or a global
NEEDS = {"event": (ENV, "event_q_changed"), "stop": (ENV, "event_q_changed"), "grant": ("", "event_q_changed"),
         "level": ("@", "lf_port_status_changed"), "advance": ("@", "lf_port_status_changed"), "count": ("lf_semaphore_t", "cond"),
         "watchdog": ("watchdog_t", "cond")}
# several threads wait for these, and for different things
ALL = ("level", "advance", "count")
NEVER = ("c", -(1 << 63))
WHAT = {"event": "an event was put on the queue", "stop": "the stop tag was set", "grant": "a grant was recorded",
        "level": "the level up to which reactions may execute was changed", "advance": "the current tag was changed",
        "count": "the semaphore was released", "watchdog": "a watchdog is to expire earlier, or not at all"}
# in these the thread that would have to wake up is the one that makes the change, or there is no other yet
WORKER = "the thread that waits for the next event makes the change"
EARLY = "before the start of the program"
SELF = {"_lf_next_locked": ("event stop level", WORKER), "lf_send_next_event_tag": ("event stop", WORKER), "_lf_pop_events": ("event", WORKER),
        "_lf_start_time_step": ("event", WORKER), "_lf_advance_tag": ("event stop", WORKER), "_lf_initialize_start_tag": ("event stop level advance", EARLY),
        "_lf_initialize_timer": ("event", EARLY), "_lf_initialize_timers": ("event", EARLY), "environment_init": ("event stop advance", EARLY),
        "environment_init_tags": ("event stop advance", EARLY), "initialize_global": ("event stop advance", EARLY),
        "_lf_process_mode_changes": ("event", WORKER), "_lf_handle_mode_changes": ("event", WORKER),
        "_lf_handle_mode_triggered_reactions": ("event", WORKER), "lf_semaphore_acquire": ("count", "it lowers the count"), "lf_semaphore_wait": ("count", "it leaves the count as it is"),
        "lf_semaphore_new": ("count", "nobody knows the semaphore yet"), "_lf_initialize_watchdogs": ("watchdog", EARLY)}


class Wake(Base):
    rule = "wake"
    K = 24

    def __init__(self, an, fn, rep):
        super().__init__(an.prog, fn, rep)
        self.an = an
        self.exits = set()
        self.made = 0

    def get(self, st, k):
        return [x for x in st.ps if x[0] == k]

    def base(self, addr, field):
        return flow.plus(addr, -fieldoff(self.prog, None, field[0], field[1]))

    # -- obligations --------------------------------------------------------------------------------------------------
    def exempt(self, kind):
        return self.fn.name in SELF and kind in SELF[self.fn.name][0]

    def owe(self, st, kind, obj):
        self.made += 1
        if not self.exempt(kind) and not self.covered(st, kind, obj):
            self.add(st, ("owe", kind, obj))

    def matches(self, kind, obj, s):
        if kind == "advance" and s[1] == "@other":
            return True
        c, o = NEEDS[kind][1], obj
        if s[1] != c:
            return False
        if kind in ALL and not s[3]:
            return False
        return NEEDS[kind][0] in ("@", "") or o is None or s[2] is None or s[2] == o

    def covered(self, st, kind, obj):
        return any(self.matches(kind, obj, s) for s in self.get(st, "sig"))

    def signal(self, st, cond, obj, every=True):
        s = ("sig", cond, obj, every)
        self.add(st, s)
        self.drop(st, lambda x: x[0] == "owe" and self.matches(x[1], x[2], s))

    def release(self, e, st, ins, what):
        for x in sorted(self.get(st, "owe"), key=repr):
            if x[1] == "watchdog" and self.asleep(e, st, x[2]):
                continue
            self.report(x[1], "%s() %s at %s without having woken up the threads that wait for what changed: %s" % (
                self.fn.name, what, ins.where(), WHAT[x[1]]), st, ins)
        self.drop(st, lambda x: x[0] in ("owe", "sig", "wd", "act", "exp", "old", "new"))

    # -- hooks --------------------------------------------------------------------------------------------------------
    def store(self, e, st, ins, addr, path, val):
        if not path:
            return
        if path[-1] == ("tag_t", "time") and len(path) >= 2:
            f = path[-2]
            if f == (ENV, "stop_tag"):
                self.owe(st, "stop", self.base(addr, f))
            elif f == (ENV, "current_tag") and self.an.ports:
                self.owe(st, "advance", None)
            elif f == ("federate_instance_t", "last_TAG"):
                self.owe(st, "grant", None)
        elif path[-1] == ("@", "max_level_allowed_to_advance"):
            old = [x for x in self.get(st, "old")]
            if not any(x[1] == val for x in old):
                self.owe(st, "level", None)
                self.drop(st, lambda x: x[0] == "new")
                self.add(st, ("new", val))
        elif path[-1] == ("lf_semaphore_t", "count"):
            self.owe(st, "count", self.base(addr, path[-1]))
        elif path[-1] == ("watchdog_t", "expiration"):
            o = self.base(addr, path[-1])
            old = [x for x in self.get(st, "wd") if x[1] == o]
            self.owe(st, "watchdog", o)
            if ("owe", "watchdog", o) in st.ps:
                self.drop(st, lambda x: x in old)
                exp = [x[2] for x in self.get(st, "exp") if x[1] == o]
                self.add(st, ("wd", o, val, old[0][3] if old else exp[0] if exp else None))
        elif path[-1] == ("watchdog_t", "terminate") and val != ("c", 0):
            o = self.base(addr, path[-1])
            self.owe(st, "watchdog", o)

    def load(self, e, st, ins, addr, path, val):
        super().load(e, st, ins, addr, path, val)
        if path and path[-1] == ("watchdog_t", "active"):
            self.add(st, ("act", self.base(addr, path[-1]), val))
        if path and path[-1] == ("watchdog_t", "expiration") and not self.get(st, "wd") and not self.get(st, "exp"):
            self.add(st, ("exp", self.base(addr, path[-1]), val))
        if path and path[-1] == (ENV, "execution_started"):
            self.add(st, ("idle", val))
        if path and path[-1] == ("@", "max_level_allowed_to_advance") and not self.get(st, "new"):
            self.add(st, ("old", val))

    def condition(self, ins, addr):
        """(name, object) of a condition variable"""
        p = self.prog.pinfo(self.fn, ins.ops[0])[0]
        if p and p[-1][0] not in ("*", "?"):
            k = p[-1]
            return k[1], None if k[0] == "@" else self.base(addr, k)
        if addr[0] == "@":
            return addr[1], None
        return None, None

    def call(self, e, st, ins, name, args):
        if name in locks.LOCK:
            self.drop(st, lambda x: x[0] == "sig")
            return None
        if name in locks.UNLOCK:
            if not self.aside(ins):
                self.release(e, st, ins, "releases the lock")
                self.add(st, ("rel",))
            return None
        if name in WAITS:
            self.release(e, st, ins, "waits")
            self.add(st, ("rel",))
            return None
        if name in SIGNAL:
            self.sites += 1
            c, o = self.condition(ins, args[0])
            if c:
                self.signal(st, c, o, "broadcast" in name)
            return None
        if name in INSERT:
            for a, (v, p, s) in list(st.mem.items()):
                if v == args[0] and p and p[-1] == (ENV, "event_q"):
                    self.owe(st, "event", self.base(a, p[-1]))
                    break
            else:
                p = self.prog.pinfo(self.fn, ins.ops[0])[0]
                if p and p[-1] == ("*", ENV, "event_q"):
                    self.owe(st, "event", None)
            return None
        if name in NOTIFY:
            self.sites += 1
            self.signal(st, "event_q_changed", args[0])
            return None
        if name in self.an.touch:
            outs = self.an.summary(name)
            if not outs:
                return None
            f = self.prog.mod.funcs[name]
            m = dict(zip(f.args, args))
            res = []
            outs = sorted(outs, key=repr)
            for n, (ps, rel, r) in enumerate(outs):
                s = st.copy() if n < len(outs) - 1 else st
                if rel and self.get(s, "owe"):
                    self.release(e, s, ins, "lets %s() release the lock" % name)
                e.default_call(s, ins, name, args)
                v = e.fresh(s, ins) if ins.res is not None else ("undef",)
                if r is not None and ins.res is not None:
                    if ins.ty == ("i", 1):
                        e.assume(s, v, r != 0)
                    elif not e.rel(s, v, ("c", 0), EQ if r == 0 else LT | GT):
                        continue
                for x in ps:
                    if x[0] == "sig":
                        self.signal(s, x[1], (locks.subst(x[2], m) or ("?",)) if x[2] is not None else None, x[3])
                for x in ps:
                    if x[0] == "owe":
                        self.owe(s, x[1], locks.subst(x[2], m) if x[2] is not None else None)
                res.append((s, v))
            return res
        return None

    def aside(self, ins):
        """a lock that has nothing to do with what is waited for"""
        c = locks.lockclass(self.prog, ins)
        return any(x in str(c) for x in ASIDE)

    def edge(self, e, st, bb, succ):
        # only the top-level environment has ports whose status depends on other federates
        if self.an.ports:
            for a in self.fn.args:
                for (k, *ab), m in st.facts.items():
                    if k in ("P", "U") and not m & EQ and ("arg", a) in ab and any(self.top(x) for x in ab):
                        self.signal(st, "@other", None)
        for x in self.get(st, "idle"):
            if e.iv(st, x[1])[:2] == (0, 0):
                self.signal(st, "@other", None)
        return True

    def top(self, v):
        i = self.prog.atom_ins(v[1]) if v[0] == "v" else None
        return i is not None and i.op == "load" and any(c.x == "_lf_get_environments" and i.ops[0] in c.ops for c in self.fn.calls())

    def asleep(self, e, st, obj):
        """the thread of the watchdog wakes up by itself early enough, or there is nothing to do for it"""
        for x in self.get(st, "wd"):
            if x[1] != obj:
                continue
            act = [e.iv(st, y[2]) for y in self.get(st, "act") if y[1] == obj]
            off = any(y[:2] == (0, 0) for y in act)
            on = any(y[0] > 0 or 0 in y[2] for y in act)
            if x[2] == NEVER:
                return off
            return on and x[3] is not None and not e.pmask(st, x[2], x[3]) & LT
        return False

    def ret(self, e, st, ins, val):
        if any(x[1] == "watchdog" and self.asleep(e, st, x[2]) for x in self.get(st, "owe")):
            self.drop(st, lambda x: x[:2] == ("owe", "watchdog"))
        self.drop(st, lambda x: x[0] in ("wd", "act", "exp", "idle"))
        ps = frozenset(x for x in st.ps if x[0] in ("owe", "sig"))
        rel = ("rel",) in st.ps
        new = self.get(st, "new")
        v = val
        while v is not None and v[0] in ("b2i", "zx", "tr"):
            v = v[1]
        if new and v is not None and v[0] == "cmp" and v[1] == "ne":
            pair = {v[2], v[3]}
            if any({x[1], n[1]} == pair for x in self.get(st, "old") for n in new):
                # says whether it changed
                self.exits.add((ps, rel, 1))
                self.exits.add((frozenset(x for x in ps if x[:2] != ("owe", "level")), rel, 0))
                return
        k = None
        if val is not None and val[0] != "undef":
            n = e.iv(st, val)
            k = 0 if n[:2] == (0, 0) else 1 if 0 in n[2] or n[0] > 0 or n[1] < 0 else None
        self.exits.add((ps, rel, k))


ASIDE = ("lf_outbound_socket_mutex", "global_mutex", "token_mutex", "socket_mutex", "trace_mutex")


class Analysis:
    def __init__(self, prog, rep, ports):
        self.prog, self.rep, self.ports = prog, rep, ports
        self.memo, self.active = {}, set()
        self.sites = self.made = 0
        cg = prog.callgraph()
        self.touch = {f.name for f in prog.mod.funcs.values() if any(self.interesting(i) for i in f.instrs())}
        ch = True
        while ch:
            ch = False
            for n in prog.mod.funcs:
                if n not in self.touch and cg[n] & self.touch:
                    self.touch.add(n)
                    ch = True
        self.touch -= locks.WRAPPERS | SIGNAL | WAITS | INSERT | NOTIFY

    def interesting(self, i):
        if i.op == "call":
            return i.x in SIGNAL or i.x in INSERT or i.x in NOTIFY
        if i.op == "store":
            p = self.prog.access(i)[0]
            return bool(p) and (p[-1] in (("@", "max_level_allowed_to_advance"), ("lf_semaphore_t", "count")) or
                    len(p) >= 2 and p[-2] in ((ENV, "stop_tag"), ("federate_instance_t", "last_TAG")) or
                    len(p) >= 2 and p[-2] == (ENV, "current_tag") and self.ports)
        return False

    def summary(self, name):
        if name in self.memo:
            return self.memo[name]
        if name in self.active:
            return None
        self.active.add(name)
        c = Wake(self, self.prog.mod.funcs[name], self.rep).run()
        self.sites += c.sites
        self.made += c.made
        self.active.discard(name)
        self.memo[name] = c.exits
        return c.exits


def announced(config, tier, rep):
    prog = program(config)
    an = Analysis(prog, rep, config == "fed-dec")
    cg = prog.callgraph()
    at = address_taken(prog.mod)
    called = set()
    for s in cg.values():
        called |= s
    for n in sorted(an.touch):
        outs = an.summary(n)
        if (n not in called or n in at):
            for ps, rel, r in outs:
                for x in ps:
                    if x[0] == "owe" and x[1] not in HELD.get(n, ("",))[0]:
                        rep.violation("wake/%s/%s" % (x[1], n), "%s() returns without having woken up the threads that wait for what changed: %s" % (
                            n, WHAT[x[1]]))
    rep.count("wake-ups", an.sites)
    rep.count("changes that are waited for", an.made)


# called with the lock held, by code that announces the change
HELD = {"_lf_schedule_at_tag": ("event", "what calls it in a federate announces the event")}
