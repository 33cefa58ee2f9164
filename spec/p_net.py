RTI, FEDS = ["RTIS"], ["FEDS"]
PROPS = [
 dict(id="N01", title="Messages move over sockets whole or not at all, and one at a time",
  statement="""A read or write of n bytes on a TCP socket succeeds only after exactly n bytes were transferred, in order, to or from
  consecutive places of the buffer, however the network cuts them up and however often a call is interrupted; the end of the
  stream and errors that are final make it fail. What a failed read left in the buffer is not used. Two threads never write to the same socket
  at the same time: federates hold lf_outbound_socket_mutex, and the coordinator rti_mutex, when they write to a socket that other
  threads use too.""",
  over=["fault_sequences", "schedules"],
  quant="every division of the stream into pieces, every error at every call, every path to a read, and every calling context of a write",
  why="Loopback sockets rarely deliver partial data and hardly ever fail, and two messages are mixed up only if two threads write at the same moment; the tests have no sockets at all.",
  mechanism=[("reading", "core/federated/network/net_util.c:read_from_socket"), ("writing", "core/federated/network/net_util.c:write_to_socket"),
   ("federates' writes", "core/federated/federate.c:lf_send_tagged_message"), ("coordinator's writes", "core/federated/RTI/rti_remote.c:handle_timed_message"),
   ("uses of reads", "core/federated/federate.c:handle_tagged_message")],
  technique="loop invariants and typestate over LLVM IR; context-sensitive lockset analysis for the writes",
  rules=[("net.io", RTI + FEDS), ("net.frames", RTI + FEDS)], need={"steps of the transfer of bytes": 40, "paths to a read": 50, "writes to shared sockets": 5},
  explain="""For the two transfer functions an inductive invariant is established on all paths: the next byte asked for is at buffer +
  (n - missing), and at most the missing ones are asked for; success is returned only if none is missing. errno is followed so that only EAGAIN, EWOULDBLOCK and EINTR lead to
  another try. In every caller, loads from a buffer must follow a test that its read succeeded. Writes to the
  sockets that several threads share must hold the lock in every calling context, up to the roots of the call graph.""",
  note="""All paths and contexts. Writes by named functions that run before any other thread knows the socket are exempt. The operating system is assumed to
  deliver bytes in order."""),
 dict(id="N02", title="What is received over a socket can neither exceed a buffer nor an array",
  statement="""Reads from sockets, writes to sockets and comparisons of received bytes stay within the buffers they are given, for every
  length, number of neighbours and identifier length that a message may announce. A federate ID, port or neighbour that was received is used
  as an index only if it is less than the number of elements of the array; the coordinator accepts a federate only if all neighbours it
  announces are federates of the federation.""",
  over=["inputs"], quant="all contents of all messages; every access to an array whose index was received",
  why="Tests exchange no messages at all, and examples only well-formed ones; an overrun often has no visible effect.",
  mechanism=[("coordinator: messages", "core/federated/RTI/rti_remote.c:handle_timed_message"), ("coordinator: neighbours", "core/federated/RTI/rti_remote.c:receive_connection_information"),
   ("federate: ports", "core/federated/federate.c:action_for_port"), ("federate: peers", "core/federated/federate.c:lf_handle_p2p_connections_from_federates")],
  technique="taint analysis with intervals and symbolic comparisons over LLVM IR",
  rules=[("net2.bounds", RTI + FEDS)], need={"transfers with a buffer": 50, "indices and sizes judged": 50},
  explain="""Values loaded from received buffers, and those extracted from them, are tainted. Where an address is computed from a tainted index into an array of known extent, or one whose
  elements the program counts, and where a tainted value is passed to a function that uses its parameter so, all paths must imply that the index is in range. For every transfer the number of bytes must be
  at most what is left of the buffer, as a linear form over the program's values. A neighbour is followed from the moment it is extracted to the return of the function that accepts it.""",
  note="""All paths. Buffers that come through the heap from other functions are not judged. The number of elements of the tables does not change after start-up, which is checked. The
  length that HMAC() reports is taken to be that of the digest."""),
]
