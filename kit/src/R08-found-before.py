PROP = "R08"
NEEDS = "a federate that can be reached upstream by two paths, of which the shorter one is found later, with a further federate upstream of it"
BREAKS = "when a shorter path to a node is found, the delays of the nodes upstream of it are not updated"
EDITS = [("core/federated/RTI/rti_common.c", """      if (path_delays[intermediate->upstream[i]].time == FOREVER) {
        // Found a finite path.
        *count = *count + 1;
      }
""", """      bool found = path_delays[intermediate->upstream[i]].time == FOREVER;
      if (found) {
        // Found a finite path.
        *count = *count + 1;
      }
"""), ("core/federated/RTI/rti_common.c", """        _update_min_delays_upstream(end, rti_common->scheduling_nodes[intermediate->upstream[i]], path_delays, count);
""", """        // Visit each of them once.
        if (found) {
          _update_min_delays_upstream(end, rti_common->scheduling_nodes[intermediate->upstream[i]], path_delays, count);
        }
""")]
PY = """
def demo():
    r = RTI(4)
    ms = 10**6
    (a, b, c, d), t0 = federation(r, [([(1, 100 * ms), (2, -1 << 63)], []), ([(3, -1 << 63)], [0, 2]), ([(1, -1 << 63)], [0]), ([], [1])])
    b.net(FOREVER)
    c.net(FOREVER)
    d.net(t0 + 50 * ms)    # what it sends may reach a at the same tag, by way of b and c
    time.sleep(0.2)
    a.net(t0 + 60 * ms)
    a.quiet()
"""
