PROP = "R01"
NEEDS = "an upstream federate that completes a tag and has a further event at the next microstep of the same time, over a connection with a delay"
BREAKS = "the tag up to which an upstream federate's messages are complete is one microstep too late for connections with a delay"
EDITS = [("core/federated/RTI/rti_common.c", "tag_t candidate = lf_delay_strict(upstream->completed, e->upstream_delay[j]);",
 "tag_t candidate = upstream->completed.microstep ? lf_delay_strict(upstream->completed, e->upstream_delay[j]) :\n        lf_delay_tag(upstream->completed, e->upstream_delay[j]);")]
PY = """
def demo():
    r = RTI(2)
    (a, b), t0 = federation(r, [([], [1]), ([(0, 10**6)], [])])
    a.net(t0)
    b.net(t0 + 10**6)
    time.sleep(0.3)
    a.ltc(t0)          # more to come at (t0, 1), which arrives at t0 + 1 ms
    b.quiet()
    a.net(t0 + 1)
    assert b.expect(TAG)[0] >= t0 + 10**6
"""
