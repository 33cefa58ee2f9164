PROP = "R02"
NEEDS = "a provisional grant to a federate in a zero-delay cycle one of whose upstream federates resigned earlier"
BREAKS = "the upstream federates listed after one that resigned are not granted the tag provisionally, so the cycle deadlocks"
EDITS = [("core/federated/RTI/rti_remote.c", """      // Ignore this federate if it has resigned.
      if (upstream->state == NOT_CONNECTED)
        continue;

      tag_t earliest""", """      // Ignore this federate if it has resigned.
      if (upstream->state == NOT_CONNECTED)
        break;

      tag_t earliest""")]
PY = """
def demo():
    r = RTI(3)
    no = -(1 << 63)
    (c, a, b), t0 = federation(r, [([], [1]), ([(0, no), (2, no)], [2]), ([(1, no)], [1])])
    c.resign(); c.close()
    time.sleep(0.3)
    a.net(t0 + 1000)
    b.net(t0 + 1000000)
    for f in (a, b):
        while f.expect(PTAG) != (t0 + 1000, 0):
            pass
"""
