PROP = "R06"
NEEDS = "a message longer than the buffer of the RTI, to a federate that has resigned, followed by another message from the same sender"
BREAKS = "the last bytes of a long message that is discarded are left in the socket and taken for the next message"
EDITS = [("core/federated/RTI/rti_remote.c", """    size_t total_bytes_read = bytes_read;
    while (total_bytes_read < total_bytes_to_read) {
      bytes_to_read = total_bytes_to_read - total_bytes_read;
      if (bytes_to_read > FED_COM_BUFFER_SIZE) {
        bytes_to_read = FED_COM_BUFFER_SIZE;
      }
      read_""", """    size_t total_bytes_read = bytes_read;
    while (total_bytes_read < length) {
      bytes_to_read = length - total_bytes_read;
      if (bytes_to_read > FED_COM_BUFFER_SIZE) {
        bytes_to_read = FED_COM_BUFFER_SIZE;
      }
      read_""")]
PY = """
def demo():
    r = RTI(3)
    no = -(1 << 63)
    (a, b, c), t0 = federation(r, [([], [1, 2]), ([(0, no)], []), ([(0, no)], [])])
    c.resign()
    c.close()
    time.sleep(0.5)
    a.msg(2, 0, t0 + 10**9, body=b"\x04" * 1000)
    a.msg(1, 0, t0 + 10**9, body=b"z" * 10)
    while True:
        k, p = b.recv()
        if k == TAGGED:
            break
    assert p[1] == b"z" * 10
"""
