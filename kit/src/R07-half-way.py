PROP = "R07"
NEEDS = "a connection that gives a valid identifier and is rejected afterwards, because of what it sends next"
BREAKS = "the rejected connection counts as one of the federates, so the coordinator stops accepting connections before all federates are there"
EDITS = [("core/federated/RTI/rti_remote.c", """      i--;
    }
  }
  // All federates have connected.""", """      if (fed_id < 0) {
        i--;
      }
    }
  }
  // All federates have connected.""")]
PY = """
def demo():
    r = RTI(2)
    a = Fed(r, 0)
    s = r.connect()
    s.sendall(struct.pack("<BHB", FED_IDS, 1, 1) + b"x")
    assert s.recv(1)[0] == ACK
    s.sendall(struct.pack("<Bii", UDP_PORT, 0, 0))
    time.sleep(0.3)
    s.close()
    b = Fed(r, 1)
    a.start(1000)
    b.start(2000)
    assert a.expect(TIMESTAMP) == b.expect(TIMESTAMP)
"""
