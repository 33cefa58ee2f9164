PROP = "R05"
NEEDS = "a federate that asks to stop itself just before it hears that another one did, so that it sends a request and later a reply with a later tag, before a third one replies"
BREAKS = "the tag in a reply counts only if the federate had not asked to stop itself; the stop tag can be before the one it replied with"
EDITS = [("core/federated/RTI/rti_remote.c", """  // If the federate has not requested stop before, count the reply
  if (lf_tag_compare(""", """  // If the federate has not requested stop before, count the reply
  if (!fed->requested_stop && lf_tag_compare(""")]
PY = """
def demo():
    r = RTI(3)
    (a, b, c), t0 = federation(r, [([], []), ([], []), ([], [])])
    s = t0 + 10**9
    a.stop(s)
    b.expect(STOP_REQ)
    c.expect(STOP_REQ)
    b.stop(s)
    b.stop_reply(s + 7)
    time.sleep(0.2)
    c.stop_reply(s + 3)
    for f in (a, b, c):
        assert f.expect(STOP_GRN) == (s + 7, 0)
"""
