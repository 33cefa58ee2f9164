PROP = "R07"
NEEDS = "a connection that gives an identifier equal to the number of federates"
BREAKS = "the identifier is taken to be one of an existing federate, and memory beyond the array of federates is used as if it described one"
EDITS = [("core/federated/RTI/rti_remote.c", "      if (fed_id >= rti_remote->base.number_of_scheduling_nodes) {\n        // Federate ID is out",
 "      if (fed_id > rti_remote->base.number_of_scheduling_nodes) {\n        // Federate ID is out")]
PY = """
def demo():
    r = RTI(2)
    a = Fed(r, 0)
    s = r.connect()
    s.sendall(struct.pack("<BHB", FED_IDS, 2, 1) + b"x")
    assert s.recv(2) == bytes([REJECT, 3]), "not rejected"
    s.close()
    b = Fed(r, 1)
    a.start(1000)
    b.start(2000)
    assert a.expect(TIMESTAMP) == b.expect(TIMESTAMP)
"""
