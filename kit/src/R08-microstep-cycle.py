PROP = "R08"
NEEDS = "a cycle of at least three federates whose only delay is one microstep"
BREAKS = "a cycle whose only delay is a microstep is taken to be a zero-delay cycle, so provisional grants are sent although an earlier message can still arrive"
EDITS = [("core/federated/RTI/rti_common.c", "if (lf_tag_compare(path_delay, ZERO_TAG) == 0 && intermediate->upstream_delay[i] < 0) {",
 "if (path_delay.time == 0 && intermediate->upstream_delay[i] < 0) {")]
PY = """
def demo():
    r = RTI(3)
    none = -1 << 63
    # a -> b -> c -> a, with a delay of a microstep from c to a
    (a, b, c), t0 = federation(r, [([(2, 0)], [1]), ([(0, none)], [2]), ([(1, none)], [0])])
    a.net(t0)
    assert a.expect(TAG)[0] == t0
    c.net(t0)
    b.net(t0)
    b.quiet()              # a may still send a message with this tag
"""
