"""Loops over the arrays of the runtime look at every element."""
from ..common import *
from .. import flow

E_, T_, R_, N_, C_ = "environment_t", "trigger_t", "reaction_t", "scheduling_node_t", "rti_common_t"
# array -> the field that holds the number of its elements (None: an element of this other array)
TRIGGERS = {(T_, "reactions"): (T_, "number_of_reactions"),
            (E_, "timer_triggers"): (E_, "timer_triggers_size"),
            (E_, "startup_reactions"): (E_, "startup_reactions_size"),
            (E_, "shutdown_reactions"): (E_, "shutdown_reactions_size"),
            (E_, "reset_reactions"): (E_, "reset_reactions_size"),
            (R_, "output_produced"): (R_, "num_outputs"),
            (R_, "triggers"): (R_, "num_outputs"),
            ("*", R_, "triggers"): ("*", R_, "triggered_sizes")}
PRESENT = {(E_, "is_present_fields"): (E_, "is_present_fields_size"),
           (E_, "is_present_fields_abbreviated"): (E_, "is_present_fields_abbreviated_size"),
           (E_, "_lf_intended_tag_fields"): (E_, "is_present_fields_size")}
STRUCTS = {("minimum_delay_t", "id"): (N_, "min_delays")}    # elements that are structures
UP = {(N_, "min_delays"): (N_, "num_min_delays"), (N_, "upstream"): (N_, "num_upstream"), (N_, "upstream_delay"): (N_, "num_upstream")}
DOWN = {(N_, "downstream"): (N_, "num_downstream")}
NODES = {(C_, "scheduling_nodes"): (C_, "number_of_scheduling_nodes")}
# loops that look for one element only
SEARCH = {"lf_connect_to_federates": "finds out whether there is any federate that synchronises its clock"}
# arrays of which a loop looks at the element itself, before it decides anything about it
EVERY = {(T_, "reactions"), (E_, "timer_triggers"), (E_, "startup_reactions"), (E_, "shutdown_reactions"), (E_, "reset_reactions"), (R_, "output_produced"),
         (N_, "upstream"), (N_, "downstream"), (N_, "min_delays"), (C_, "scheduling_nodes")}
EXTS = {"sext", "zext", "trunc", "freeze", "bitcast"}


def define(f, op):
    return f.defs.get(op[1]) if op[0] == "%" else None


def strip(f, op):
    while True:
        d = define(f, op)
        if d is None or d.op not in EXTS:
            return op
        op = d.ops[0]


def linear(f, op, at=None):
    """(operand, constant): the operand plus a constant, looking through extensions"""
    k = 0
    for _ in range(12):
        op = strip(f, op)
        d = define(f, op)
        if d is not None and d.op in ("add", "sub") and d.ops[1][0] == "c":
            k += d.ops[1][1] if d.op == "add" else -d.ops[1][1]
            op = d.ops[0]
        elif d is not None and d.op == "add" and d.ops[0][0] == "c":
            k += d.ops[0][1]
            op = d.ops[1]
        else:
            break
    return op, k


class Loops:
    """the loops of a function that go through an array with a counter or a pointer"""

    def __init__(self, prog, f):
        self.prog, self.f, self.loops = prog, f, prog.loops(f)

    def final(self, path):
        """the array an element belongs to, by its path"""
        if len(path) < 2 or path[-1][0] != "*":
            return None
        p = path[-1][1:]
        return p if len(p) == 2 else p if p and p[0] == "*" else None

    def counter(self, op):
        """(phi of a loop header, offset, loop)"""
        op, k = linear(self.f, op)
        d = define(self.f, op)
        if d is not None and d.op == "phi" and d.bb.name in self.loops:
            return d, k, self.loops[d.bb.name]
        return None

    def steps(self, phi, body):
        """(values on entry, step) of a counter"""
        init, step = [], set()
        for o, b in phi.x:
            if b in body:
                p, k = linear(self.f, o)
                d = define(self.f, p)
                if d is phi:
                    step.add(k)
                elif d is not None and d.op == "getelementptr" and define(self.f, d.ops[0]) is phi and len(d.ops) == 2 and d.ops[1][0] == "c":
                    step.add(d.ops[1][1])
                elif d is not None and d.op == "phi":
                    for q in self.flat(d, set()):
                        p2, k2 = linear(self.f, q)
                        step.add(k2 if define(self.f, p2) is phi else None)
                else:
                    step.add(None)
            else:
                init.append(o)
        return init, step.pop() if len(step) == 1 else None

    def flat(self, phi, seen):
        if phi.res in seen:
            return []
        seen.add(phi.res)
        out = []
        for o, _ in phi.x:
            d = define(self.f, strip(self.f, o))
            out += self.flat(d, seen) if d is not None and d.op == "phi" and d.bb.name not in self.loops else [o]
        return out

    def loaded(self, op, field):
        """is it a value loaded from that field?"""
        d = define(self.f, strip(self.f, op))
        if d is None:
            return False
        if d.op == "phi":
            return all(self.loaded(o, field) for o in self.flat(d, set())) if d.bb.name not in self.loops else \
                all(self.loaded(o, field) for o, b in d.x if b not in self.loops[d.bb.name])
        if d.op != "load":
            return False
        p = self.prog.access(d)[0]
        return bool(p) and (p[-1] == field or p[-1] == ("*",) + field or p[-1][0] == "*" and p[-1][1:] == field)


def arrays(table, exempt):
    def run(config, tier, rep):
        prog = program(config, frozenset(("_lf_mode_is_active",)))
        n = 0
        for f in prog.mod.funcs.values():
            L = Loops(prog, f)
            if not L.loops:
                continue
            seen = set()
            for i in f.instrs():
                if i.op != "load":
                    continue
                arr = array(prog.access(i)[0])
                if arr not in table:
                    continue
                n += visit(prog, f, L, i, arr, table[arr], rep, exempt, seen)
        rep.count("loops over arrays", n)
    return run


def index(f, op):
    """(operand that tells which element it is, whether it is a pointer to the element)"""
    for _ in range(6):
        g = define(f, op)
        if g is None or g.op != "getelementptr":
            break
        if g.ops[1][0] != "c":
            return g.ops[1], False
        if g.ops[1] == ("c", 0) and len(g.ops) == 3 and g.ops[2][0] != "c":
            return g.ops[2], False
        if any(o != ("c", 0) for o in g.ops[1:2]):
            break
        op = g.ops[0]
    return op, True


def array(path):
    """the array to which the element belongs that has this path"""
    if not path:
        return None
    return STRUCTS.get(path[-1]) or (path[-1][1:] if path[-1][0] == "*" else None)


def visit(prog, f, L, i, arr, count, rep, exempt, seen):
    op, walk = index(f, i.ops[i.op == "store"])       # walk: a pointer that goes through the array
    c = L.counter(op)
    if c is None:
        return 0
    phi, k, body = c
    if (phi.res, arr) in seen or srcfn(i) in exempt:
        return 0
    init, step = L.steps(phi, body)
    if not step:
        return 0
    seen.add((phi.res, arr))
    name = arr[-1]
    where = "%s() goes through '%s' at %s" % (srcfn(i), name, i.where())
    if not walk and abs(step) > 1:
        rep.violation("full/step/%s/%s" % (f.name, name), where + ", but only looks at every %dth element" % abs(step))
        return 1
    if walk:
        step = 1 if step > 0 else -1
    if arr in EVERY:
        at = [j.bb.name for j in f.instrs() if j.op in ("load", "store") and array(prog.access(j)[0]) == arr and
              (L.counter(index(f, j.ops[j.op == "store"])[0]) or (None,))[0] is phi]
        for b in sorted(body):
            if phi.bb.name in f.blocks[b].succ and not any(prog.dominates(f, a, b) for a in at):
                rep.violation("full/skip/%s/%s" % (f.name, name), where + ", but may go on to the next element without having looked at this one (at %s)" % f.blocks[b].ins[-1].where())
                return 1
    # what leaves the loop
    exits = [(b, s) for b in sorted(body) for s in f.blocks[b].succ if s not in body and not dead(f, s)]
    bounds = []
    for b, s in exits:
        t = f.blocks[b].ins[-1]
        e = exit_of(L, f, t, s, phi)
        if e is None:
            rep.violation("full/early/%s/%s" % (f.name, name), where + ", but may leave the loop before it has looked at every element (at %s)" % t.where())
            return 1
        bounds.append((b, t) + e)
    first = [linear(f, o) for o in init]
    for b, t, op, off, pred, bound in bounds:
        # off: what is added to the counter in the comparison; the element looked at is number counter + k
        looked = prog.dominates(f, i.bb.name, b)
        nxt = k + (step if looked else 0)     # number of the element that would be next, relative to the counter
        if step == 1:
            bo, bk = linear(f, bound)
            if walk or not L.loaded(bo, count):
                continue
            # leaves when counter + off >= n + bk (ge, eq) or > (gt)
            least = bk - off + (1 if pred == "gt" else 0)
            if least + nxt < 0:
                rep.violation("full/end/%s/%s" % (f.name, name), where + ", but leaves the loop before the last element (at %s)" % t.where())
        elif bound[0] == "c":
            # leaves when counter + off <= bound (le, eq) or < (lt)
            most = bound[1] - off - (1 if pred == "lt" else 0)
            if most + nxt > -1:
                rep.violation("full/end/%s/%s" % (f.name, name), where + ", but leaves the loop before the first element (at %s)" % t.where())
    for o, ok in first:
        if walk:
            continue
        if step == 1 and o[0] == "c" and o[1] + ok + k > 0:
            rep.violation("full/start/%s/%s" % (f.name, name), where + ", but does not start with the first element")
        if step == -1 and L.loaded(o, count) and ok + k < -1:
            rep.violation("full/start/%s/%s" % (f.name, name), where + ", but does not start with the last element")
    return 1


def dead(f, b):
    """does this block only lead to the end of the program?"""
    for _ in range(8):
        t = f.blocks[b].ins[-1]
        if t.op == "unreachable":
            return True
        if t.op != "br" or len(f.blocks[b].succ) != 1:
            return False
        b = f.blocks[b].succ[0]
    return False


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}
SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}


def exit_of(L, f, t, s, phi):
    """(counter operand, offset, predicate, bound) of the comparison that decides to leave the loop, or None"""
    if t.op != "br" or len(f.blocks[t.bb.name].succ) != 2:
        return None
    c = define(f, t.ops[0])
    pos = f.blocks[t.bb.name].succ[0] == s
    while c is not None and (c.op == "xor" and c.ops[1][0] == "c" or c.op == "freeze" or
                             c.op == "icmp" and c.x == "ne" and c.ops[1] == ("c", 0) and (define(f, strip(f, c.ops[0])) or c).op == "icmp" and strip(f, c.ops[0]) != c.ops[0]):
        pos ^= c.op == "xor"
        c = define(f, strip(f, c.ops[0]))
    if c is None or c.op != "icmp":
        return None
    pred = c.x if pos else NEG[c.x]
    for a, b, p in ((c.ops[0], c.ops[1], pred), (c.ops[1], c.ops[0], SWAP[pred])):
        o, k = linear(f, a)
        d = define(f, o)
        if d is phi or d is not None and d.op == "getelementptr" and define(f, d.ops[0]) is phi:
            return o, k, {"eq": "eq", "ne": "ne"}.get(p) or p[1:], b
    return None


full = arrays(TRIGGERS, {})
present = arrays(PRESENT, {})
upstream = arrays(UP, {})
downstream = arrays(DOWN, {})
nodes = arrays(NODES, SEARCH)
