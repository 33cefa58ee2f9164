PROP = "R04"
NEEDS = "three or more federates, so that more than one is waiting for the others to propose a start time when the last one does"
BREAKS = "only one of the waiting federates is woken when all have proposed; the others never get a start time"
EDITS = [("core/federated/RTI/rti_remote.c", """    lf_cond_broadcast(&received_start_times);
  } else {""", """    lf_cond_signal(&received_start_times);
  } else {""")]
PY = """
def demo():
    r = RTI(4)
    f = [Fed(r, i) for i in range(4)]
    for i in range(4):
        f[i].start(1000 + i)
        time.sleep(0.2)
    t = {x.expect(TIMESTAMP) for x in f}
    assert len(t) == 1 and t.pop() >= 1003
"""
