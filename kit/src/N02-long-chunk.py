PROP = "N02"
NEEDS = "a message whose part beyond the first buffer is longer than the buffer, but not twice as long"
BREAKS = "a chunk of a long message is read into a buffer that is too small for it"
EDITS = [("core/federated/RTI/rti_remote.c", """    LF_PRINT_DEBUG("Forwarding message in chunks.");
    bytes_to_read = total_bytes_to_read - total_bytes_read;
    if (bytes_to_read > FED_COM_BUFFER_SIZE) {
""", """    LF_PRINT_DEBUG("Forwarding message in chunks.");
    bytes_to_read = total_bytes_to_read - total_bytes_read;
    if (bytes_to_read >= 2 * FED_COM_BUFFER_SIZE) {
""")]
PY = """
def demo():
    r = RTI(2)
    no = -(1 << 63)
    (a, b), t0 = federation(r, [([], [1]), ([(0, no)], [])])
    body = bytes(65 + i % 26 for i in range(235 + 500))
    a.msg(1, 0, t0 + 10**9, body=body)
    while True:
        k, p = b.recv()
        if k == TAGGED:
            break
    if p[1] != body:
        raise Fail("message changed on its way")
    for f in (a, b):
        f.resign()
        f.close()
    if r.wait(10) != 0:
        raise Fail("RTI crashed")
"""
