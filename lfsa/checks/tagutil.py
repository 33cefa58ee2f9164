"""Tags in memory: reading a tag field as a pair of expressions, recognising a complete write of a tag field, and
deciding orders of tags from comparisons made in any form."""
from .. import flow
from ..flow import LT, EQ, GT


def tagat(e, st, addr):
    """(time, microstep) expressions currently known to be stored at addr, None for an unknown part"""
    t, m = st.mem.get(addr), st.mem.get(flow.plus(addr, 8))
    return (t[0] if t else None, m[0] if m else None)


def order(e, st, A, B):
    """mask of the possible orders of tags A and B (pairs of expressions, None = unknown)"""
    if None in A or None in B:
        return 7
    m = e.tmask(st, A, B)
    if m in (LT, EQ, GT):
        return m
    # a tag with an incremented microstep is later than the original
    if A[1][0] == "+" and A[1][2] > 0 and flow.plus(A[1], -A[1][2]) != B[1]:
        m &= flow.compose(GT, order(e, st, (A[0], flow.plus(A[1], -A[1][2])), B))
    elif B[1][0] == "+" and B[1][2] > 0 and flow.plus(B[1], -B[1][2]) != A[1]:
        m &= flow.compose(order(e, st, A, (B[0], flow.plus(B[1], -B[1][2]))), LT)
    if m in (LT, EQ, GT):
        return m
    t = e.pmask(st, A[0], B[0])
    k = e.pmask(st, A[1], B[1], True)
    ra, rb = (flow.plus(x, -x[2]) if x[0] == "+" else x for x in (A[1], B[1]))
    if ra == rb and A[1] != B[1]:
        # microsteps do not wrap around
        na, nb = (x[2] if x[0] == "+" else 0 for x in (A[1], B[1]))
        k = LT if na < nb else GT
    m2 = 0
    if t & LT:
        m2 |= LT
    if t & GT:
        m2 |= GT
    if t & EQ:
        m2 |= k
    return m & m2


def order_any(e, st, A, time=None, ms=None):
    """the best order known between tag A and some tag with the given time (and microstep)"""
    best = []
    for k in st.facts:
        if k[0] == "T":
            for X in (k[1], k[2]):
                if (time is None or X[0] == time) and (ms is None or X[1] == ms):
                    best.append(X)
    return best


class TagWrites:
    """client mixin: calls wrote_tag(e, st, ins, field, base, old, new) once a tag field was written completely.  A write
    of one part only is reported with the other part unchanged."""
    FIELDS = ()

    def part(self, path):
        if len(path) >= 2 and path[-1][0] == "tag_t" and path[-2] in self.FIELDS:
            return path[-2], path[-1][1]
        return None, None
