PROP = "C01"
NEEDS = "two federates requesting a stop before a third one has replied: the second request finds the stop already in progress"
BREAKS = "the RTI thread of the second federate returns with rti_mutex held, so every other RTI thread blocks forever"
EDITS = [("core/federated/RTI/rti_remote.c", """  if (rti_remote->stop_in_progress) {
    LF_MUTEX_UNLOCK(&rti_mutex);
    return;
  }
  rti_remote->stop_in_progress = true;""", """  if (rti_remote->stop_in_progress) {
    return;
  }
  rti_remote->stop_in_progress = true;""")]
PY = """
def demo():
    r = RTI(3)
    (a, b, c), t0 = federation(r, [([], [])] * 3)
    a.stop(t0 + 100)
    b.expect(STOP_REQ); c.expect(STOP_REQ)
    b.stop(t0 + 300)
    time.sleep(0.3)
    c.stop_reply(t0 + 200)
    for f in (a, b, c):
        if f.expect(STOP_GRN) != (t0 + 300, 0): raise Fail("wrong stop tag")
"""
