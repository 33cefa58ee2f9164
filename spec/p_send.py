FEDS = ["fed-cent", "fed-dec"]
PROPS = [
 dict(id="F01", title="Outgoing messages say what was sent, to whom and for which tag",
  statement="""What a federate sends for a reaction names the destination port and federate that were given, the length of the body, and, if it is tagged, the current tag of the environment plus the delay of the connection (an absent port is announced for the strict delay), and goes to that federate (or to the RTI) with its whole body directly following the header, under the mutex for outgoing messages.
  A tagged message is left out only if its tag is past the stop tag or its type is not supported. Each message between federates and the RTI, of whichever type, has the fields and the length of its type; numbers and tags are encoded with least significant byte first, and decoding yields what was encoded.""",
  over=["inputs", "histories"], quant="every path through the functions that send, every put-together message, every bit of every number",
  why="A byte order, a shift or a swapped field that is wrong shows only for large values, and a message with a wrong tag only when its receiver has got to that tag.",
  mechanism=[("tagged messages", "core/federated/federate.c:lf_send_tagged_message"), ("messages", "core/federated/federate.c:lf_send_message"), ("absent ports", "core/federated/federate.c:lf_send_port_absent_to_federate"), ("encoding", "core/federated/network/net_util.c:encode_tag"), ("decoding", "core/federated/network/net_util.c:extract_timed_header")],
  technique="path-sensitive dataflow of message buffers and bit propagation over LLVM IR",
  rules=[("send.outgoing", FEDS), ("send.layout", FEDS + ["rti-auth", "rti"]), ("codec.codecs", FEDS + ["rti-auth", "rti"])], need={"functions that send messages of reactions": 3, "paths to a message": 20, "functions that put numbers into messages or take them out": 6},
  explain="""outgoing: in lf_send_message(), lf_send_tagged_message() and lf_send_port_absent_to_federate(), the bytes that were stored and encoded into the header at the time it is written, by position, are compared with the arguments (and with lf_delay_tag() or lf_delay_strict() of the current tag);
  the socket must be the one to the given federate or the RTI, the mutex be held from the header to the body, and each return without a message follow a test of the type or of lf_is_tag_after_stop_tag(). layout: for each buffer that is written to a socket with a known type, the offsets and widths of encoded fields and the length written must be those of the type.
  codec: the bits of each byte that encode_*() stores and of each value that extract_*() returns are followed through shifts, masks and extensions to bits of the arguments; byte i must be bits 8i to 8i+7.""",
  note="All paths. A little-endian host is assumed (host_is_big_endian() is 0); extract_int64(), extract_int32() and so on on a big-endian host are not covered. Where messages are forwarded or passed on unchanged (the RTI), and where the buffer is filled with memcpy(), only the length is compared. The receiving side is the subject of N01, P01 and T03."),
 dict(id="F02", title="A federate announces its earliest tag and advances only to what it was granted",
  statement="""With centralized coordination, a federate that asks to advance sends the tag of its earliest event as next event tag (less only if a physical action bounds it), notes what it sent, and sends another one if the earliest event changes while it waits. It goes on, with the last tag granted, only once that is at least the tag asked for or that of the next event; without a grant only if it has no upstream federates (and announced the tag or has no downstream ones either) or was told not to wait.
  It confirms a tag as completed once, only if it is later than the last confirmed, and only a tag that is not after the current one. The tag that a federate takes as granted never decreases, it knows whether the last grant was provisional, a provisional grant does not replace one of the same tag that is not, nor does it make the status of input ports known, and on a provisional grant, levels that may be executed are limited again, and the federate is made to get to the tag, or to confirm it, before the event queue is unlocked.""",
  over=["schedules", "histories", "inputs"], quant="every path through asking, being granted and confirming, for every order of messages from the RTI",
  why="A federate that goes on without a grant computes the right output unless another federate is slow; one that announces too late a tag lets others go on too early.",
  mechanism=[("asking", "core/federated/federate.c:lf_send_next_event_tag"), ("confirming", "core/federated/federate.c:lf_latest_tag_confirmed"), ("granted", "core/federated/federate.c:handle_tag_advance_grant"), ("provisionally granted", "core/federated/federate.c:handle_provisional_tag_advance_grant")],
  technique="path-sensitive typestate with tag order facts over LLVM IR",
  rules=[("grant.grants", ["fed-cent"]), ("grant.taken", ["fed-cent"])], need={"paths to an announcement, a wait or a return": 20, "paths to a confirmation": 1, "paths to a tag being taken as granted": 10},
  explain="""grants: on each path through lf_send_next_event_tag(), each send_tag() of a NET must be of the tag asked for, of the tag bounded_NET() left, or of get_next_event_tag() after the last wait, and be noted in last_sent_NET; each wait must follow it; each value returned must be known to be granted, not bounded or announced as stated, with the order of tags that comparisons on the path imply.
  In lf_latest_tag_confirmed(), each LTC must be later than last_sent_LTC and be noted, each return without one follow a test that it is not later (or that there is no RTI to tell); its callers must pass the current tag or an earlier one. taken: each store to last_TAG must be known not to be earlier than what it replaces, the flag of provisional grants must match the type of the message that was read,
  and for provisional ones lf_update_max_level() be called and a dummy event be inserted at a tag not later than the grant (or the LTC be sent or the tag be known not to be reached this way) before unlocking.""",
  note="All paths, in fed-cent. bounded_NET() is only known to lower the tag. The conditions under which the RTI grants are the subject of R01 to R03. Decentralized coordination (STP offsets) is not covered."),
 dict(id="F03", title="Levels wait for input ports whose status is not known, and for no others",
  statement="""In a federate, no reaction of a level at or above that of the reaction of a network input port executes while the status of that port is not known up to the current tag, if the port has to be waited for: with centralized coordination the ports in cycles without delay, unless the tag (or a later one) was granted, and not provisionally; with decentralized coordination all ports that are not physical,
  except where the delay of their connection implies, near the start time, that they are absent. All levels are allowed if there is no such port, and only then; a level that has to wait continues once it is less than the limit, and not before.
  The tag up to which the status of a port is known never decreases, and whenever it advances (or a tag begins) the limit is computed anew before the federate's environment is unlocked. At the beginning of a tag, a port is taken as absent (until a message says otherwise) if it is known up to that tag, and as unknown otherwise.""",
  over=["schedules", "histories", "inputs"], quant="every path through computing the limit, waiting for it, and learning about a port",
  why="A port that is taken as absent too early loses its message only if that arrives late; one that is waited for without need blocks the federate in particular topologies only.",
  mechanism=[("limit", "core/federated/federate.c:lf_update_max_level"), ("waiting", "core/federated/federate.c:lf_stall_advance_level_federation_locked"), ("status", "core/federated/federate.c:update_last_known_status_on_input_port"), ("beginning of a tag", "core/federated/federate.c:lf_reset_status_fields_on_input_port_triggers")],
  technique="path-sensitive typestate with tag order facts over LLVM IR, loop bound analysis",
  rules=[("mlaa.limits", FEDS), ("mlaa.status", FEDS)], need={"paths to a change of the levels that are allowed, or a return": 6, "paths to a wait for a level, or a return": 2, "paths to a change of what is known about a port": 6, "paths to a status of a port at the beginning of a tag": 4},
  explain="""limits: each iteration of lf_update_max_level() over the table of ports must end with the port known (the current tag compared as not later than last_known_status_tag), physical, absent because of the delay of its connection (current tag not later than lf_delay_strict() of the start), or the limit known not to be greater than the level of its first reaction; a limit may only be set to such a level, not above the previous limit,
  and only for a port that has to be waited for. The loop must go through the table of the coordination from the first to the last element; returning without it requires that the tag is granted. lf_stall_advance_level_federation_locked() must return with level less than the limit that was read last, and wait only for changes of the status of ports; no other function may set the limit.
  status: each write of last_known_status_tag must be known, by the order of tags implied by comparisons on the path, not to be earlier than the value before, and be followed by lf_update_max_level() before unlocking or returning; likewise _lf_pop_events(), which learns about ports at the beginning of a tag. The status that lf_reset_status_fields_on_input_port_triggers() gives each port must agree with the order of the two tags.""",
  note="All paths. A tag at time FOREVER is taken as the latest whatever its microstep. That the schedulers wait for a level before executing it is the subject of S01 to S04, that waiting threads are woken that of W01. When a port is assumed absent because of STAA offsets is not covered. inputs_known_to() and lf_wait_until_time() are not covered."),
 dict(id="F04", title="A received message reaches the port it names, once, with its body, at its tag",
  statement="""What a federate receives for one of its ports is delivered to the port that the message names, with the body and the length of the message: a message without a tag as a physical event, a tagged one before the environment is unlocked, exactly once, unless the environment has already started and is at (or past) its stop tag, where it is given up.
  A tagged message is delivered at its own tag if that is later than the current one (or execution has not begun); it triggers reactions at once only if its tag is the current one, execution has begun, and the tag is later than that of the last event of the port and than that up to which the port is known; otherwise it is late, and is scheduled without further delay (with centralized coordination that is an error).
  The status of the port that it names, and of no other, becomes known by it.""",
  over=["schedules", "histories", "inputs"], quant="every path from the header of a message to its delivery",
  why="Whether a message is in the future, current or late depends on when it arrives, and a microstep that is lost shows only for messages that have one.",
  mechanism=[("tagged messages", "core/federated/federate.c:handle_tagged_message"), ("messages", "core/federated/federate.c:handle_message"), ("at once", "core/federated/federate.c:handle_message_now"), ("scheduling", "core/federated/federate.c:schedule_message_received_from_network_locked")],
  technique="path-sensitive typestate with tag order facts over LLVM IR",
  rules=[("recv.received", FEDS)], need={"functions that receive messages": 2, "paths to the delivery of a message": 6},
  explain="""received: in the functions that take a header apart with extract_header() or extract_timed_header() (or extract_tag() after it), the values that were stored through the pointers to the port, the length and the tag are followed; the trigger or action must be that of _lf_action_table[port], the token be made of it with the body read and the length, and on each path to unlocking the environment's mutex exactly one delivery happen (or none, after comparisons that imply that the current tag is not earlier than the stop tag, and with execution_started).
  _lf_insert_reactions_for_trigger() must follow comparisons that imply an equal current tag and earlier last_tag and last_known_status_tag; _lf_schedule_at_tag() have exactly the tag of the message and follow comparisons that imply that it is in the future, or that execution has not started; lf_schedule_trigger() have delay zero and follow the opposite. Writes of last_known_status_tag must be to the trigger of that port.""",
  note="All paths. That reading a socket yields the whole message is the subject of N02, that fields are decoded rightly that of F01; that scheduling keeps to the tag is that of the properties T01 to T06. "),
]
