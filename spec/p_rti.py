RTI = ["RTIS"]
PROPS = [
 dict(id="R01", title="The coordinator grants a tag only when no earlier message can still arrive",
  statement="""The coordinator grants a federate (or an enclave) an advance to a tag only if that tag is what all upstream nodes
  still connected completed, each delayed strictly by its connection, or is the federate's next event and every node upstream,
  directly or not, has a next event that, delayed by the least delay of the path from it, is later. It grants provisionally
  only if those are equal and, counting only paths that are not in a zero-delay cycle, later. A node that has not yet
  reported may send from the start time on. And when one of these holds, a grant is due.""",
  over=["histories", "topologies"],
  quant="every state of the federation, every topology and every delay, along every path of the computation",
  why="The tests of the coordinator compute path delays for a few topologies; grants depend on the tags reported by all federates in any order.",
  mechanism=[("whether a grant is due", "core/federated/RTI/rti_common.c:tag_advance_grant_if_safe"),
   ("earliest message", "core/federated/RTI/rti_common.c:earliest_future_incoming_message_tag"), ("outside zero-delay cycles", "core/federated/RTI/rti_common.c:eimt_strict")],
  technique="path-sensitive dataflow over tags, their order, and minima computed by loops",
  rules=[("rti.grants", RTI), ("each.upstream", RTI), ("rti6.paths", RTI)], need={"iterations and results analysed": 20},
  explain="""For each of the loops over upstream nodes it is established that a pair of loop variables starts at FOREVER, never
  rises, is at most the bound computed for the node of that iteration (the right field, delayed by the right element of the
  right array, with the right delay function), and that the loop ends only after the last node; nodes may be left out only if
  not connected or, where the definition says so, in a zero-delay cycle. Every return of tag_advance_grant_if_safe() must
  carry one of the permitted tags with the order facts that justify it, or must have found that none is due.""",
  assume=["the delays of paths are the least ones (R08, whose rule is part of this check, too)"],
  note="All paths; the reachable states of a federation are over-approximated by all states."),
 dict(id="R02", title="Grants go out in increasing order, to running federates, and are recorded",
  statement="""At the moment a grant is written to a federate's socket, with the lock held since it was decided, the federate is
  connected and has been sent the start time, and the tag is later than every tag granted to it before (a full grant may equal
  an earlier provisional one). A grant is recorded if and only if it was sent; if sending fails, the federate is marked as
  gone. A provisional grant is followed by checking each connected upstream federate, which gets a grant for the same tag, full
  or provisional, if one is safe.""",
  over=["schedules", "histories", "fault_sequences"],
  quant="every path through every function that sends or records a grant",
  why="Two threads of the coordinator can decide on grants for one federate while a third is still waiting to send it the start time; only such interleavings expose a stale decision.",
  mechanism=[("full grants", "core/federated/RTI/rti_remote.c:notify_tag_advance_grant"), ("provisional grants", "core/federated/RTI/rti_remote.c:notify_provisional_tag_advance_grant"),
   ("recording", "core/federated/RTI/rti_common.c:notify_advance_grant_if_safe")],
  technique="path-sensitive dataflow over tags and the state of the federate, with lock releases as havoc",
  rules=[("rti2.sends", RTI)], need={"paths to a grant, or to its record": 8},
  explain="""At each write to a socket of a buffer whose first byte is a grant's, the tag encoded into it is compared with the
  fields of the node whose socket it is; facts from before a wait are discarded. Each write of a granted tag to a node must
  follow the successful sending of that tag. The loop over upstream nodes is checked as in R01.""",
  note="All paths. That messages get from one end of a socket to the other is not modelled."),
 dict(id="R03", title="What frees a waiting federate is acted upon before the lock is released",
  statement="""Whenever what bounds the messages of a federate rises (it completes a tag, announces a later next event,
  resigns, or its connection is lost), the coordinator re-examines every federate downstream of it, directly or not, before
  releasing its lock, so no federate waits for a grant that is already due. In particular, when the coordinator stops serving
  a federate for any reason, that federate is marked as gone, its next event becomes FOREVER, and those downstream of it are
  re-examined.""",
  over=["histories", "fault_sequences", "topologies"],
  quant="every path through every function that changes a node's announced or completed tag, and every way the thread of a federate ends",
  why="A forgotten re-evaluation shows only if the federate that could be released does not report anything itself afterwards, and then as a federation that hangs.",
  mechanism=[("completion", "core/federated/RTI/rti_common.c:_logical_tag_complete"), ("announcement", "core/federated/RTI/rti_common.c:update_scheduling_node_next_event_tag_locked"),
   ("those downstream", "core/federated/RTI/rti_common.c:notify_downstream_advance_grant_if_safe"), ("resigning", "core/federated/RTI/rti_remote.c:handle_federate_resign"),
   ("losing a connection", "core/federated/RTI/rti_remote.c:federate_info_thread_TCP")],
  technique="path-sensitive obligation analysis over LLVM IR",
  rules=[("rti2.reeval", RTI), ("each.downstream", RTI)], need={"paths on which a node's bounds change": 4},
  explain="""Each change of a completed or next event tag that may raise it creates an obligation that only the notification
  of those downstream of the same node (or a loop that examines each of them) discharges; unlocking or returning with it is a
  violation, except where the node is known to have nobody downstream. The notification itself must examine each downstream
  node and recurse, unless visited. All paths that end the thread of a federate must have marked it as gone and notified.""",
  note="All paths. A next event that is lowered needs no re-evaluation."),
 dict(id="R04", title="All federates start at one time, the latest proposed plus a constant",
  statement="""The coordinator answers every federate's proposal with the same start time: the greatest of the times that all
  federates proposed plus the start delay, computed only after every one of the federates has proposed. Each proposal is
  counted once and can only raise the maximum; the federate that completes the count wakes all those that wait for it; and
  a federate counts as started (and thus can be sent grants and messages) only once the start time has been sent to it.""",
  over=["schedules", "histories"],
  quant="every order in which any number of federates propose, and every path through the functions that take part",
  why="The threads that serve the federates meet in this agreement in any order; a test sees one order with one or two federates.",
  mechanism=[("agreement", "core/federated/RTI/rti_remote.c:handle_timestamp")],
  technique="path-sensitive dataflow over the shared maximum and count, with lock releases and waits as havoc",
  rules=[("rti3.start", RTI)], need={"steps of the agreement on the start time": 10},
  explain="""Writes of the maximum and of the count, waits, wake-ups, the message written to the socket and the change of the
  federate's state are checked on every path: the maximum is never lowered and not below the proposal just received, the count
  rises by one with the lock held since, the wait ends only when the count has reached the number of federates, the bytes
  sent encode the maximum read after that plus DELAY_START, and the state changes to granted only afterwards.""",
  note="All paths. Transient federates do not exist in this version."),
 dict(id="R05", title="A stop is agreed upon once, at the latest tag asked for",
  statement="""When a federate asks to stop, the coordinator asks each other federate that is still connected, once and not before it was sent the start time, and answers
  with the greatest of the tags in the request and in the replies as soon as every federate has asked, replied, or gone. That tag is never lowered, and every federate is counted
  once. The decision is sent once, to each federate that is connected, with that tag. A federate that goes away while the
  others are waiting for its reply does not keep them from stopping.""",
  over=["histories", "schedules", "fault_sequences"],
  quant="every path through every function that handles requests, replies and departures, with any number of federates",
  why="Requests, replies and departures come in any order and overlap; a test would see the federate that asks and one that replies.",
  mechanism=[("request", "core/federated/RTI/rti_remote.c:handle_stop_request_message"), ("reply", "core/federated/RTI/rti_remote.c:handle_stop_request_reply"),
   ("decision", "core/federated/RTI/rti_remote.c:broadcast_stop_time_to_federates_locked"), ("counting", "core/federated/RTI/rti_remote.c:mark_federate_requesting_stop"),
   ("departure", "core/federated/RTI/rti_remote.c:handle_federate_resign")],
  technique="path-sensitive obligation analysis and loop summaries over LLVM IR",
  rules=[("rti3.stop", RTI), ("rti3.started", RTI), ("each.nodes", RTI)], need={"steps of the agreement on the stop tag": 50, "requests to stop sent": 1},
  explain="""The same kind of analysis as R04, for the maximum of the stop tags and the count of the federates handling it; loops
  over federates are summarised per iteration: whom they leave out, and what they send to the others. On each way the thread of
  a federate ends, the federate must have been counted if a stop is being agreed upon.""",
  note="All paths. How a federate chooses its reply is the subject of T02 and T04."),
 dict(id="R06", title="Messages through the coordinator arrive whole, in order and in time",
  statement="""A message (or notice of absence) that one federate sends to another through the coordinator is passed on with
  exactly the bytes received, all of them, in one piece, whatever its length, to the federate that its header names, if that
  one is connected and has been sent the start time; otherwise all of it is discarded. Its tag is recorded as being
  in transit and, if it is before the announced next event of the receiver, lowers that. Until the receiver completes a
  tag at or after that of the message, its next event is not taken to be later than the tag of the message.""",
  over=["inputs", "schedules", "histories"],
  quant="every length, every chunking, and every path through the functions that relay messages",
  why="Lengths at the boundaries of the buffer, and messages in transit while the receiver announces its next event, are not reached by the tests, which contain no federated program.",
  mechanism=[("messages", "core/federated/RTI/rti_remote.c:handle_timed_message"), ("absence", "core/federated/RTI/rti_remote.c:handle_port_absent_message"),
   ("next event", "core/federated/RTI/rti_remote.c:handle_next_event_tag"), ("completion", "core/federated/RTI/rti_remote.c:handle_latest_tag_confirmed")],
  technique="path-sensitive dataflow with symbolic byte counts over LLVM IR",
  rules=[("rti4.relay", RTI), ("rti4.transit", RTI)], need={"transfers analysed": 6, "uses of announced and completed tags": 2},
  explain="""Each read from the sender's socket yields a pending interval of buffer bytes; each write to another socket must pass
  on exactly the pending bytes, in order, to the node that the extracted header names, with the lock held since its state was
  tested. The sum of the lengths read must be a loop invariant that ends at header plus announced length on every return.
  The queue of tags in transit and the use of its minimum and of the completed tag are followed by value.""",
  note="All paths; loop invariants are found by a first pass. Sockets are assumed to carry bytes in order."),
 dict(id="R07", title="Only the federates of a federation become part of it",
  statement="""A connection to the coordinator becomes a federate only if it names exactly the federation of the coordinator, and
  the identifier that it gives exists and is not in use; if authentication is enabled, it must also have answered the fresh
  nonce sent to it with the full HMAC that only holders of the federation's identifier can compute. It is served only after it has also sent the
  structure of its neighbourhood and its UDP port message. A connection that is rejected at any point is closed, and leaves
  its identifier free. Each federate admitted is counted once, nothing else is counted, and the coordinator goes on accepting until all are there.""",
  over=["inputs", "histories", "fault_sequences"],
  quant="every sequence of bytes that a connection may send before it is admitted, every failure on the way, and any number of connections",
  why="Tests contain no coordinator; connections that are almost right, or fail half way, do not occur in ordinary use at all.",
  mechanism=[("accepting", "core/federated/RTI/rti_remote.c:lf_connect_to_federates"), ("identifiers", "core/federated/RTI/rti_remote.c:receive_and_check_fed_id_message"),
   ("authentication", "core/federated/RTI/rti_remote.c:authenticate_federate"), ("neighbours", "core/federated/RTI/rti_remote.c:receive_connection_information"),
   ("UDP port", "core/federated/RTI/rti_remote.c:receive_udp_message_and_set_up_clock_sync"), ("rejection", "core/federated/RTI/rti_remote.c:send_reject")],
  technique="path-sensitive typestate analysis of a connection over LLVM IR",
  rules=[("rti5.admit", RTI)], need={"decisions on connections": 4},
  explain="""The loop that accepts connections is analysed with everything that it calls inlined. At the change of a federate's
  state to pending, the path must have compared what was received with the federation's identifier for equality (lengths
  included), bounded the identifier received and tested the state of the very federate that it names, and have compared all of the HMAC over its
  own nonce. Where a thread is created to serve a federate, both later messages must have been received, and at the end of each
  iteration a connection that is not served must be closed and its identifier free; the loop's counter must match.""",
  note="All paths. The strength of the HMAC and of the random numbers is assumed."),
 dict(id="R08", title="Path delays are the least over all paths; zero-delay cycles are recognised",
  statement="""For each node, the coordinator knows for exactly those nodes from which there is a path of connections to it (each node on the way being connected) the least delay of such a path, where the delays of the connections are added in the order from
  the receiver back to the sender. A node is taken to be in a cycle if there is a path from it to itself, and in a zero-delay cycle if and only if the least such path has no delay, not even a microstep.""",
  over=["topologies"], quant="every topology and every combination of delays",
  why="The unit tests of the coordinator compute delays for a handful of small topologies; the result depends on the order in which paths are found.",
  mechanism=[("paths", "core/federated/RTI/rti_common.c:update_min_delays_upstream"), ("cycles", "core/federated/RTI/rti_common.c:is_in_zero_delay_cycle")],
  technique="path-sensitive dataflow over tags and array elements, with an invariant of the recursion",
  rules=[("rti6.paths", RTI), ("each.upstream", RTI)], need={"steps of the computation of path delays": 20, "loops over arrays": 2},
  explain="""In the recursive function that reads the delays of connections, every write of a path's delay must be, for the node at the beginning of connection i, the sum of the delay of connection i and the delay recorded for the node at its end (zero at first), and have been found to be less than what is recorded; if it is not
  written, it must have been found not to be less. After a write, the function must call itself for that node, unless it is the one where the path ends, which must be marked as being in a cycle, and as in a zero-delay cycle if and only if the new delay was found to be zero. The caller must start with no path from any node, and record
  the delay of each node that has one, under its own number. The loops involved are checked to visit every element. Together these make the result the fixed point that defines least delays.""",
  note="All paths. The recursion terminates because recorded delays only decrease; that it is not too deep for the stack is not checked. Delays are computed once, when all federates are connected."),
]
