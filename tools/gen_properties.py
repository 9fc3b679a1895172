#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The statements live here so that they can be edited as text."""
import json, os
B = "pyogp/lib/base/"
M = B + "message/"
P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "UDP encoding matches the template's wire format",
  """For every message of the template that may travel over UDP and every in-range value of its fields, serialising
  yields exactly the wire image: flags byte, big-endian packet id, zero extra-header length, the message number in its
  frequency's encoding, then blocks and fields in template order (one count byte before each variable block,
  little-endian numbers, network-order port, raw bytes for fixed and address fields, length-prefixed NUL-terminated
  variable fields). The order in which the caller supplied the blocks and fields does not matter, serialising leaves the
  message unchanged, and serialising it again gives the same bytes.""",
  ["inputs"], "all permitted template messages x field values x block repeat counts x supply orders x packet ids",
  "tests serialise two or three hand-written messages and compare a handful of bytes; about 470 templates and 18 field types are never encoded",
  [M + "udpserializer.py", M + "data_packer.py", M + "template_dict.py", B + "datatypes.py", B + "helpers.py"],
  [("UDPMessageSerializer.serialize/build_block", M + "udpserializer.py"), ("DataPacker.pack_data", M + "data_packer.py"),
   ("TemplateDictionary.build_message_ids", M + "template_dict.py")],
  ["return value of UDPMessageSerializer.serialize", "buffers handed to the UDP client by UDPDispatcher.send_message"])

p("C02", "UDP decoding recovers exactly what was encoded",
  """Every well-formed datagram of a UDP-permitted template message (with at least one block instance, if the message has blocks) decodes to a message with the same name, packet id and
  flags whose blocks hold, in wire order, exactly the encoded instances with every field equal to the value encoded
  (trailing NULs of variable fields other than raw 'Data' fields aside). In particular deserialising what the library
  itself serialised gives the original content back, and re-serialising what it decoded gives an equivalent datagram.""",
  ["inputs"], "all permitted template messages x field values x repeat counts",
  "tests decode one or two captured packets and compare a few fields",
  [M + "udpdeserializer.py", M + "data_unpacker.py", B + "datatypes.py"],
  [("UDPMessageDeserializer.deserialize", M + "udpdeserializer.py"), ("DataUnpacker.unpack_data", M + "data_unpacker.py")],
  ["Message returned by UDPMessageDeserializer.deserialize", "message seen by subscribers via UDPDispatcher.receive_check"])

p("C03", "Messages that do not fit the template are refused, never mis-encoded",
  """A message the wire format cannot represent - unknown name, missing single or multiple block, missing field, wrong number of single or
  multiple blocks, more than 255 repeats of a variable block, a variable field longer than its length prefix can express,
  or a fixed-size field whose encoded value has another size - is never put on the wire: serialising it raises an error
  or returns no buffer, and sending it through the dispatcher transmits nothing. The serializer and the dispatcher work
  normally for the next message.""",
  ["inputs", "histories"], "all templates x structural defects x positions, interleaved with valid messages",
  "tests only build messages that fit",
  [M + "udpserializer.py", M + "data_packer.py", M + "udpdispatcher.py"],
  [("count checks in build_block", M + "udpserializer.py"), ("exception handling in __send_message", M + "udpdispatcher.py")],
  ["return value / exception of serialize", "datagrams seen by the UDP client"])

p("C04", "Malformed datagrams never crash or corrupt the receiver",
  """Whatever bytes arrive in a datagram, decoding ends in exactly one of: a message, nothing, or a
  MessageDeserializationError; no strict prefix of a well-formed datagram that is neither zero-coded nor has appended acks yields a message, and a message produced from
  damaged bytes contains only blocks and fields of its template with values of the declared size. Datagrams decoded after a malformed one are
  decoded as if it had never arrived.""",
  ["inputs", "fault_sequences", "histories"], "arbitrary, truncated, bit-flipped, spliced and extended datagrams",
  "tests never feed a damaged datagram",
  [M + "udpdeserializer.py", M + "data_unpacker.py", M + "udpdispatcher.py"],
  [("length checks in the decoder", M + "udpdeserializer.py"), ("DataUnpackingError mapping", M + "data_unpacker.py")],
  ["outcome of UDPMessageDeserializer.deserialize and UDPDispatcher.receive_check"])

p("C05", "Zero-coded datagrams decode like their plain form",
  """A datagram flagged zero-coded, in which every run of zero bytes after the header (packet prefix plus extra header) is replaced by a
  zero byte and its run length (longer runs in pieces of at most 255), decodes to the same message as the same datagram
  sent unencoded. Appended acks are outside the coded part, and bytes of a datagram not flagged zero-coded are never expanded.""",
  ["inputs"], "all permitted messages, any zero run lengths and positions (including inside the message number), with and without acks and extra header",
  "one captured packet is decoded in the tests",
  [M + "udpdeserializer.py"], [("zero_code_expand", M + "udpdeserializer.py"), ("deserialize prologue", M + "udpdeserializer.py")],
  ["Message returned by deserialize"])

p("C06", "Header flags, extra header and appended acks are honoured",
  """For every combination of header flags, 32-bit packet id, extra-header length and number of appended acks (0 to 255),
  decoding reports that packet id, those flags, the reliable attribute exactly when the reliable flag is set, exactly the
  appended packet ids (big-endian, in order), and the body unaffected by the extra header. An outgoing datagram carries the ack
  flag exactly when it ends with appended ack ids and their count byte.""",
  ["inputs"], "flag combinations x packet ids x extra headers x ack lists x messages",
  "the tests decode no datagram with acks, extra header or large ids",
  [M + "udpdeserializer.py", M + "udpserializer.py", M + "circuit.py"],
  [("ack stripping and offset handling", M + "udpdeserializer.py"), ("Circuit.prepare_packet", M + "circuit.py")],
  ["Message attributes send_flags, packet_id, reliable, acks", "sent datagrams"])

p("C07", "Codecs are history independent; deferred parsing only skips",
  """What a serializer or deserializer returns depends only on its input and configuration, not on the messages or datagrams
  it processed before or on what callers did to its earlier results, and messages returned earlier never change afterwards. With deferred parsing on, a datagram whose
  message nobody has registered for yields nothing, and once registered for - or with deferred parsing off - it yields the complete
  message, the same in both cases.""",
  ["histories", "configurations"], "sequences of valid, skipped, banned, unknown and malformed inputs on one codec instance versus fresh instances",
  "tests use a fresh instance for one packet",
  [M + "udpdeserializer.py", M + "udpserializer.py", M + "message_handler.py", B + "settings.py"],
  [("current_template/current_block/context instance state", M + "udpdeserializer.py"), ("is_message_handled", M + "message_handler.py")],
  ["results of serialize/deserialize on shared and fresh instances"],
  [("current_template", "template of the datagram in progress", M + "udpdeserializer.py")])

p("C08", "Messages banned from UDP by message.xml never cross UDP",
  """A message that the message.xml in force gives a flavor other than 'template' is neither transmitted nor accepted over UDP: the serializer returns nothing,
  the dispatcher sends nothing, and a received datagram of it is dropped without reaching any handler; every other
  template message passes. A message.xml supplied by the caller replaces the built-in one throughout serializer,
  deserializer, dispatcher and message manager.""",
  ["inputs", "configurations"], "all template messages x built-in and generated message.xml tables x entry points",
  "tests check three names against the built-in table",
  [M + "message_dot_xml.py", M + "udpserializer.py", M + "udpdeserializer.py", M + "udpdispatcher.py", B + "message_manager.py"],
  [("MessageDotXML.validate_udp_msg", M + "message_dot_xml.py")],
  ["serialize/deserialize results, datagrams sent, handler invocations"])

p("C09", "Per-destination packet numbering and circuit isolation",
  """Each remote address (ip, port) has its own circuit, however many Host objects name it, and the packet ids of the messages
  the dispatcher sends it count 1, 2, 3, ... without gap or reuse, whatever is sent to or received from other addresses;
  every datagram goes to the address it was sent for. Of the flags reliable and resent, a datagram carries exactly the one its
  kind of sending asks for. Sending to an unusable host (no ip or port) transmits nothing.""",
  ["histories"], "interleaved sends (plain, reliable, retry), receives and ack rounds over several hosts",
  "tests send at most three messages on one or two circuits",
  [M + "circuit.py", M + "udpdispatcher.py"],
  [("Circuit.next_packet_id/prepare_packet", M + "circuit.py"), ("CircuitManager map keyed by (ip, port)", M + "circuit.py"), ("find_circuit", M + "udpdispatcher.py")],
  ["(host, bytes) pairs handed to the UDP client", "circuit_manager.get_circuit"],
  [("last_packet_out_id", "last id used", M + "circuit.py"), ("circuit_map", "address to circuit", M + "circuit.py")])

p("C10", "Every reliable datagram received is acknowledged, and nothing else",
  """Each received reliable datagram of a known message - parsed, skipped because unhandled, or banned - has its packet
  id acknowledged to the address it came from, appended to a datagram or in a PacketAck, no later than the next ack round.
  No id is ever acknowledged to an address that did not send it as reliable, no datagram lists more than 255 acks, and after an ack
  round nothing is pending and another round sends no acks (but for those that retransmitted datagrams carry again).""",
  ["histories", "inputs"], "interleaved receives (reliable or not, parsed or not) from several hosts, sends and ack rounds; 0 to 1000 pending acks",
  "tests collect one or two acks on one circuit",
  [M + "circuit.py", M + "udpdispatcher.py", M + "udpserializer.py"],
  [("Circuit.collect_ack/handle_packet/prepare_packet", M + "circuit.py"), ("UDPDispatcher.__send_acks/has_unacked", M + "udpdispatcher.py")],
  ["datagrams sent per address, decoded by an independent codec"],
  [("acks", "ids to be acknowledged", M + "circuit.py")])

p("C11", "A reliable message is outstanding until acked, and acked exactly once",
  """A message sent reliably is outstanding on its circuit from sending until a datagram from that same address acks its id
  - appended to any datagram, whether parsed or skipped, or in a PacketAck - and then is no longer outstanding. Unreliable
  messages are never outstanding; acks from other addresses, for unknown ids or repeated change nothing; the circuit's
  outstanding count always equals the number of outstanding packets.""",
  ["histories"], "interleaved sends and acks (appended, PacketAck, duplicate, foreign, unknown) over several hosts",
  "tests ack one packet by calling the circuit directly",
  [M + "circuit.py", M + "udpdispatcher.py", M + "udpdeserializer.py"],
  [("Circuit.add_reliable_packet/ack_reliable_packet/handle_packet", M + "circuit.py"), ("receive_check", M + "udpdispatcher.py")],
  ["Circuit.unacked_packets, unack_packet_count after every step"],
  [("unacked_packets", "packets we want acked", M + "circuit.py")])

p("C12", "Unacknowledged reliable messages are resent within their retry budget",
  """A message sent reliably with n retries is retransmitted to the same address with the same packet id and body and the resent
  flag by the ack rounds that follow, at most once per round and n times in all, and never again once it is acked. Messages sent with no
  retries or not reliably are never retransmitted.""",
  ["histories", "fault_sequences"], "send histories with retries 0 to 5, ack rounds, lost and late acks, several hosts",
  "no test reaches the retransmission code",
  [M + "udpdispatcher.py", M + "circuit.py"],
  [("UDPDispatcher.process_acks/__resend_all_unacked", M + "udpdispatcher.py")],
  ["(host, bytes) pairs handed to the UDP client during process_acks"],
  [("unacked_circuits", "circuits with unacked packets", M + "circuit.py")])

p("C13", "Events notify every subscriber exactly once, in order",
  """Notifying an event calls each handler subscribed at that moment exactly once, in subscription order, with the event data followed by the
  arguments given at subscription, even when handlers subscribe or unsubscribe during the notification. Unsubscribing removes exactly one matching
  subscription, unsubscribing an unknown one raises ValueError and changes nothing, clearing removes all, the
  subscriber count is exact, and an exception from a handler reaches the notifier.""",
  ["histories"], "random subscribe/unsubscribe/notify/clear histories with re-entrant handlers",
  "tests subscribe one or two handlers and notify once",
  [B + "events.py"], [("Event.subscribe/unsubscribe/notify/clearSubscribers", B + "events.py")],
  ["handler invocations, getSubscriberCount, exceptions"],
  [("subscribers", "ordered subscriptions", B + "events.py")])

p("C14", "Messages are routed by name to exactly their subscribers",
  """Handling a message invokes the subscribers registered under its name - each exactly once, in order, with that message - and
  no others. Registering a name again returns the same notifier and keeps existing subscribers, a name counts as handled
  exactly when it was registered, messages nobody registered for are ignored, and exceptions raised by subscribers are not swallowed. With outgoing packet handling
  on, the messages sent through the dispatcher are routed the same way.""",
  ["histories", "configurations"], "random register/subscribe/unsubscribe/handle histories over many names, direct and through the UDP dispatcher and event queue",
  "tests register one name",
  [M + "message_handler.py", B + "events.py", M + "udpdispatcher.py"],
  [("MessageHandler.register/handle/is_message_handled", M + "message_handler.py")],
  ["subscriber invocations"], [("handlers", "name to notifier", M + "message_handler.py")])

p("C15", "Event queue events reach handlers exactly once, in order, intact",
  """Every event in a successful event-queue response reaches the handlers registered for its name exactly once, in response
  order, as a message with that name, the response's id, the region's host and a body holding exactly the event's blocks,
  instances and values (events outside the template: one Message_Data block with the body's entries). A failed or empty
  poll delivers nothing, and an event that is malformed or whose handler raises does not keep the other events from being delivered.""",
  ["histories", "inputs", "fault_sequences"], "scripted response sequences with HTTP errors, timeouts, empty results, malformed events and raising handlers",
  "tests decode one or two hand-written results without polling",
  [B + "event_queue.py", M + "message_handler.py"],
  [("_processRegionEventQueue/_parse_result/_decode_eq_result", B + "event_queue.py")],
  ["messages seen by subscribers while polling a scripted capability under virtual time"],
  [("result", "last poll's result", B + "event_queue.py")])

p("C16", "Event queue polling acknowledges correctly and stops cleanly",
  """Each poll acknowledges the id of the last response received and carries no ack before the first one; a failed poll does not lose that acknowledgement.
  After stop() no further poll is made beyond the one in progress except one final acknowledgement flagged done, after which -
  even if that request fails - the client reports it is no longer running; polls are spaced by the configured interval and stopping never raises.""",
  ["histories", "schedules", "fault_sequences"], "response/fault scripts x stop times under a virtual clock",
  "tests never run the polling loop",
  [B + "event_queue.py"], [("start/stop/_processRegionEventQueue", B + "event_queue.py")],
  ["payloads POSTed and their virtual times"], [("last_id", "id to acknowledge", B + "event_queue.py"), ("_running", "loop active", B + "event_queue.py")])

p("C17", "The outgoing queue sends each message once, in order",
  """While the message manager runs, every enqueued message is transmitted to the manager's host exactly once, in enqueue order except that messages enqueued
  with priority go ahead of those still waiting, with the reliable flag exactly when requested; messages enqueued before
  starting or from inside handlers are sent as well, and one that cannot be serialised does not stop the rest. Once stopped, the loop makes no further
  iteration.""",
  ["histories", "schedules"], "enqueue schedules (before start, between iterations, from handlers, priority or not) with interleaved receives",
  "tests enqueue a message and look at the list",
  [B + "message_manager.py", M + "udpdispatcher.py"],
  [("enqueue_message/_udp_dispatcher/send_udp_message", B + "message_manager.py")],
  ["datagrams handed to the UDP client"], [("outgoing_queue", "messages waiting", B + "message_manager.py")])

p("C18", "The message manager survives hostile traffic and always shuts down",
  """Datagrams received while the message manager runs reach the handlers registered for them once each, in arrival order, whatever
  malformed, unknown, banned or empty datagrams arrive in between, and their reliable senders are acknowledged. Starting and stopping the monitors
  works with or without an event queue, never raises, and leaves no loop running.""",
  ["histories", "schedules", "fault_sequences", "configurations"], "arrival sequences mixing valid and hostile datagrams from several hosts; start/stop points; with and without event queue",
  "tests do not run the loop",
  [B + "message_manager.py", M + "udpdispatcher.py", B + "event_queue.py"],
  [("_udp_dispatcher/start_monitors/stop_monitors", B + "message_manager.py")],
  ["handler invocations, datagrams sent, scheduler's live tasks"])

p("C19", "Capability requests carry the payload and map results and errors faithfully",
  """A capability GET or POST makes exactly one request to its URL with the caller's headers; a list or dict payload is sent as
  LLSD XML that parses back to the same value with the LLSD content type, POST_CUSTOM sends the payload untouched, and an LLSD
  response is returned parsed, whatever charset parameter its content type has. HTTP 404 raises ResourceNotFound with the URL, any other HTTP
  error raises ResourceError with URL, code, message, body and method, and any other payload or response type raises DeserializerNotFound.""",
  ["inputs", "fault_sequences"], "random LLSD payloads and responses x headers x status codes x content types x methods",
  "tests cover four fixed responses",
  [B + "caps.py", B + "helpers.py", B + "exc.py"],
  [("Capability.GET/POST/POST_CUSTOM/_response_handler", B + "caps.py")],
  ["requests seen by the REST client, results and exceptions seen by the caller"])

p("C20", "A seed capability resolves exactly the requested capabilities",
  """Asking a seed capability for names makes one POST listing exactly those names and returns a mapping with exactly those
  names, each a capability with that name and the URL the server gave, using the seed's REST client and settings.""",
  ["inputs"], "random name lists and server answers (including extra entries)",
  "tests request one name", [B + "caps.py"], [("SeedCapability.get", B + "caps.py")],
  ["request payload, returned mapping, requests made through returned capabilities"])

p("C21", "LLSD serialisation round-trips and malformed input is always reported",
  """Any list or dict of LLSD values serialises to LLSD XML that deserialises to an equal value, any valid LLSD document deserialises to its value -
  including falsy values such as 0, 0.0, empty strings, lists and maps - as a value of its own that no other caller shares, and any input that is not LLSD raises
  DeserializationFailed carrying the payload, never another exception.""",
  ["inputs"], "random nested LLSD values; random, truncated and mutated documents",
  "tests use two documents and one bad string", [B + "helpers.py"],
  [("ListLLSDSerializer/DictLLSDSerializer/LLSDDeserializer", B + "helpers.py")], ["results and exceptions"])

p("C22", "The template parser reproduces the template text exactly",
  """For every well-formed message template, parsing yields exactly the messages of the text in order, with their name, frequency,
  number, trust, encoding and deprecation, their blocks with kind and repeat count, and their fields with type and size, ignoring comments and
  whitespace differences; the version is reported, and the listings printed of the parsed messages show the same. The text has the line layout of the shipped template: at most one opening and one closing brace per line, an
  opening brace before what it opens. A Fixed or Variable field whose size is missing or not positive is rejected with MessageTemplateParsingError and a missing template with MessageTemplateNotFound.""",
  ["inputs"], "the shipped template and generated templates covering every keyword, layout and comment form",
  "tests check one message of the shipped template",
  [M + "template_parser.py", M + "template.py", M + "msgtypes.py"],
  [("MessageTemplateParser._parse_template_file and _start_new_*", M + "template_parser.py")], ["message_templates, version of the parser; accessor methods of the templates"])

p("C23", "Template lookup by name and by wire number agree, for any template",
  """A template dictionary finds every message of its template by name and by (frequency, number), both giving the same definition,
  and nothing else; its listing names each message; the wire number encodes frequency and number injectively. A template supplied by the caller - to the dictionary, serializer, deserializer, dispatcher or
  message manager - is used for encoding and decoding in place of the built-in one.""",
  ["inputs", "configurations"], "the shipped and generated templates x entry points",
  "tests look up two messages",
  [M + "template_dict.py", M + "udpserializer.py", M + "udpdeserializer.py", M + "udpdispatcher.py", B + "message_manager.py"],
  [("build_dictionaries/build_message_ids/get_template/get_template_by_pair", M + "template_dict.py")], ["lookup results, datagrams under custom templates"])

p("C24", "Vector, quaternion and UUID values convert without loss",
  """Vectors, quaternions and UUIDs survive conversion to bytes and back (at any offset; components within the 32-bit precision of the wire), to text and back (as precisely as the text shows), and copying; copies are
  independent and components keep their values and order. A quaternion given as three components gets the non-negative W that
  normalises it (0 if none exists). UUID equality, inequality and hashing agree with the UUID value, xor is bitwise, and a random UUID is only
  assigned over the null one.""",
  ["inputs"], "random and special values (zeros, negatives, extremes, float32 values), offsets and strings",
  "tests check a few constants", [B + "datatypes.py"], [("Vector3/Quaternion/UUID", B + "datatypes.py")], ["return values"])

p("C25", "Byte and number helpers compute their documented mapping",
  """For all inputs: hex, ASCII (of up to 45 bytes, the most a line holds) and base64 renderings decode back to the original bytes and bad hex raises DataParsingError; integers pack to 4 little-endian bytes;
  packed 8- and 16-bit values map linearly onto the given range with its ends exact and values within one step of zero becoming zero; packing a
  unit quaternion to three components and back gives the same rotation.""",
  ["inputs"], "all 256 and 65536 packed values x ranges x offsets; random byte strings, integers and quaternions",
  "tests check one value each", [B + "helpers.py", B + "datatypes.py"], [("Helpers static methods", B + "helpers.py")], ["return values"])

p("C26", "Message containers keep everything they are given",
  """A message holds exactly the blocks added to it, per name in insertion order, and each block exactly its fields and values; lookup by name or index syntax,
  get_var and the dict form return exactly that content for every number of repeated blocks, and no rendering of any message - built or
  decoded - as text or as a dict fails; a message whose values are all LLSD has an LLSD form that parses to that dict. Messages, blocks and ack lists of different instances never share state.""",
  ["inputs", "histories"], "random messages with repeated blocks and all value types, built by the caller or decoded",
  "tests build one or two messages", [M + "message.py", M + "template.py"],
  [("Message/Block/MsgData/MsgBlockData", M + "message.py")], ["blocks, __getitem__, get_var, to_dict, data(), repr"])

p("C27", "The LLSD message builder emits exactly the data added",
  """Building an LLSD message gives a mapping from each block name to the list of its instances in the order they were begun, each a map of exactly the
  fields added to it with their last values, and the number of distinct blocks; starting a new message discards the previous one, earlier
  results are not changed by later building, and is_built is true exactly between building and the next modification.""",
  ["histories"], "random sequences of new_message, next_block, add_data, build_message", "tests build three fixed messages",
  [M + "llsd_builder.py", M + "template.py"], [("LLSDMessageBuilder", M + "llsd_builder.py")], ["build_message results, is_built"])

p("C28", "UDP transport delivers datagrams intact with the right sender",
  """A datagram sent through the UDP client arrives at the addressed socket byte for byte; receiving returns the bytes, their length and - through get_sender - the
  sender of that datagram, and a sender obtained earlier keeps naming its own peer when later datagrams arrive from others. A
  receive that fails or times out yields empty data and length 0, and sending no buffer is refused.""",
  ["inputs", "histories"], "datagrams of all sizes up to the receive limit over loopback among several peers",
  "the test-suite has only a mock network", [B + "network/net.py", M + "circuit.py"], [("NetUDPClient", B + "network/net.py")],
  ["real loopback sockets"])

p("C29", "The HTTP client relays requests, responses and errors unchanged",
  """A GET or POST reaches the server once with the given method, path, headers and exact body; the response object has the server's
  status, headers and exact body, and an HTTP error status raises HTTPError carrying that code, message and readable body.""",
  ["inputs", "fault_sequences"], "random bodies, headers and statuses against a loopback HTTP server", "tests use a mock client",
  [B + "network/stdlib_client.py", B + "exc.py"], [("StdLibClient.GET/POST", B + "network/stdlib_client.py")], ["requests seen by a loopback server, responses and exceptions"])

p("C30", "Settings are per instance, and logging settings never change behaviour",
  """Settings objects never share state; quiet logging silences every logging switch and overrides spammy logging, which enables the verbose ones. Whatever the logging-related switches, the
  same traffic through dispatcher, manager, event queue and capabilities produces the same datagrams, requests, deliveries and results; with
  packet handling off, messages are still received, acknowledged and returned but no handler is invoked.""",
  ["configurations", "histories"], "random assignments to every boolean setting x a fixed mixed workload", "tests check the constructor's default attributes",
  [B + "settings.py", M + "udpdispatcher.py", B + "message_manager.py", B + "event_queue.py", B + "caps.py"], [("Settings.__init__", B + "settings.py"), ("settings.* tests at call sites", M + "udpdispatcher.py")],
  ["behaviour traces under different settings"])

p("C31", "Wait blocks its caller for the duration and lets others run",
  """Waiting n whole seconds returns True not before n seconds have passed and as soon as the scheduler next runs it after that, while other
  coroutines keep running on their schedule; a wait of zero or less returns at once, stopping a wait ends it at its next turn, and a wait that has
  ended can be run again. In the main loop, where nothing can yield, it ends as well.""",
  ["schedules"], "durations x clock step sizes x stop times under a virtual clock", "tests wait once for one second",
  [B + "helpers.py"], [("Wait.run/stop", B + "helpers.py")], ["virtual times, progress of other coroutines"])

p("C32", "Two endpoints deliver each other's messages and settle their acks",
  """Between message managers joined by a network that loses nothing, every message one enqueues reaches the handlers the other registered for it exactly once,
  in order, with the same content and the reliable attribute as requested; when everything has arrived nothing is outstanding, no ack is owed and
  both fall silent. Between dispatchers joined by one that loses or doubles datagrams, a reliable message of which no more transmissions are lost than it has retries
  arrives, intact, and stays outstanding exactly until an acknowledgement of it has been delivered.""",
  ["histories", "schedules", "fault_sequences"], "random messages both ways, answers from handlers, interleavings of the ends, losses and duplicates up to the retry budget",
  "tests use a mock network with one end", [B + "message_manager.py", M + "udpdispatcher.py", M + "circuit.py", M + "udpserializer.py", M + "udpdeserializer.py"],
  [("_udp_dispatcher/enqueue_message", B + "message_manager.py"), ("receive_check/send_reliable/process_acks", M + "udpdispatcher.py"), ("prepare_packet/handle_packet", M + "circuit.py")],
  ["datagrams on the network, messages at handlers, unacked_packets"])

p("C33", "The circuit registry and the traffic counters are exact",
  """A circuit exists and is alive from the first message sent to or datagram received from its address, or its explicit addition, until it is removed. Removing
  one, at any moment, forgets everything about that address - its numbering starts again at 1, acks owed to it are not sent, messages outstanding are not retransmitted - and nothing about
  others; removing an unknown one does nothing. The dispatcher's counters are exactly the number of datagrams the UDP client accepted from it and of non-empty datagrams it was given, whatever these contained;
  a UDP client that fails makes no send raise.""",
  ["histories", "fault_sequences"], "random sequences of sends, receives, ack rounds, additions and removals over several addresses, with a transport that fails at times",
  "tests add one circuit", [M + "circuit.py", M + "udpdispatcher.py"],
  [("CircuitManager", M + "circuit.py"), ("find_circuit/receive_check/__send_message", M + "udpdispatcher.py")],
  ["get_circuit, is_circuit_alive, packets_in, packets_out, datagrams handed to the UDP client"], [("circuit_map", "circuits by address", M + "circuit.py")])

p("C34", "Single values pack to their wire bytes and unpack back in every byte order",
  """Packing an in-range value as any field type gives exactly its bytes - in the type's own byte order or the one asked for -, and unpacking them, alone or at an
  offset of a larger buffer, gives the value back (a quaternion by its three components). Too few bytes of a number, vector or quaternion raise DataUnpackingError.""",
  ["inputs"], "all 20 field types x values x byte orders x offsets and surroundings",
  "tests pack and unpack one or two values of each type", [M + "data_packer.py", M + "data_unpacker.py", M + "msgtypes.py", B + "datatypes.py"],
  [("DataPacker.pack_data", M + "data_packer.py"), ("DataUnpacker.unpack_data", M + "data_unpacker.py"), ("sizeof", M + "msgtypes.py")], ["return values and exceptions"])

p("C35", "Errors keep their context, render, and are caught by their families",
  """Every error of the library keeps each parameter it was made with under its documented attribute, unchanged; its text can always be rendered and contains the parameters that it is documented to report,
  and it is caught by its family's base error and by the library's Error.""",
  ["inputs"], "all errors x parameter values (text, bytes, numbers, hosts, other errors, containers) x ways of passing them",
  "tests construct a few errors with one value", [B + "exc.py"], [("exception classes", B + "exc.py")], ["attributes, str(), isinstance"])

p("C36", "A dispatcher shared by coroutines keeps its books while transports give way",
  """When several coroutines use one dispatcher at once - sending, receiving and running ack rounds - over a transport that lets others run in each send, before or after the datagram goes out, then to each address
  every message goes out once per sending, with its own flags and content, under ids that are consecutive and used once; each reliable datagram received is acknowledged by a later round at the latest, and no other id ever is;
  a reliable message is outstanding until acked, is retransmitted with its own id and content exactly as often as its retries allow unless acked, and by no round that reaches it after its ack came; and no call raises or gets stuck.""",
  ["schedules", "histories"], "interleavings of 1-4 sending, 1-2 receiving and 1-2 ack-round coroutines at the suspension points of sends x messages (shared and own) x acks of anything on the wire",
  "tests call one method of one dispatcher at a time", [M + "udpdispatcher.py", M + "circuit.py"],
  [("__send_message/__resend_all_unacked/__send_acks", M + "udpdispatcher.py"), ("Circuit", M + "circuit.py")],
  ["datagrams handed to the UDP client", "unacked_packets", "has_unacked()"])

p("C37", "Handlers that give way lose, mix and repeat nothing",
  """When subscribers of messages or events let other coroutines run before they return, and these receive, send, notify, subscribe and unsubscribe meanwhile, each notification still calls exactly the
  subscribers there were when it began, once each and in order, with its own message or data; a message does not change while a handler holds it, receive_check returns the message it was given, an outgoing
  message reaches the wire with its own content after its handlers, an exception of a handler reaches only the notifier it belongs to, and the subscriptions afterwards are those made and not undone.""",
  ["schedules", "histories"], "interleavings of 1-7 coroutines at the suspension points of handlers x subscriptions changed meanwhile x nested notifications x exceptions",
  "tests have handlers that return at once, and nothing else runs", [M + "message_handler.py", B + "events.py", M + "udpdispatcher.py", M + "udpdeserializer.py"],
  [("Event.notify", B + "events.py"), ("MessageHandler.handle", M + "message_handler.py"), ("receive_check/__send_message", M + "udpdispatcher.py")],
  ["handler calls and their arguments", "results of receive_check", "datagrams handed to the UDP client"])

p("C38", "Capabilities shared by coroutines answer each caller with its own response",
  """When several coroutines use the same capabilities at once over an HTTP client that lets others run while a request is open, each GET, POST, POST_CUSTOM and seed request makes exactly one request with its own
  headers and payload, unchanged while it waits, and each caller gets the value or the error of the response to its own request, whatever the order in which the responses come.""",
  ["schedules", "histories"], "interleavings of 2-6 coroutines at the suspension points of requests x methods x responses (good, wrong type, HTTP errors, malformed) x shared capabilities",
  "tests make one request at a time", [B + "caps.py", B + "helpers.py"],
  [("Capability.GET/POST/POST_CUSTOM", B + "caps.py"), ("SeedCapability.get", B + "caps.py")],
  ["requests as the REST client gets them", "values and exceptions of the calls"])

p("C39", "Components of one process do not influence each other",
  """What a dispatcher, serializer, deserializer, template dictionary, message handler, event, event-queue client, capability, builder, message, packer, LLSD serializer or settings object sends, delivers, returns
  and raises depends only on its own configuration and on what is done with it - never on other instances in the process, with the same or other templates, message.xml tables, settings or hosts, made and used
  before, after, in between, or from inside its handlers, its UDP client or its HTTP client; also when they share hosts, settings, tables, templates or payloads, which they only read, and whatever callers do
  to the results of others.""",
  ["schedules", "histories", "configurations"], "2-11 components with own or shared configuration x orders of their steps x nesting of steps inside callbacks (depth 4) x traces recorded before, after and long ago",
  "tests use one instance of a class at a time, with the built-in configuration", [M + "udpdispatcher.py", M + "udpserializer.py", M + "udpdeserializer.py", M + "template_dict.py", M + "template_parser.py", M + "message_dot_xml.py",
   M + "message_handler.py", M + "circuit.py", M + "message.py", M + "llsd_builder.py", M + "data_packer.py", M + "data_unpacker.py", B + "events.py", B + "event_queue.py", B + "caps.py", B + "helpers.py", B + "settings.py"],
  [("UDPDispatcher", M + "udpdispatcher.py"), ("UDPMessageSerializer", M + "udpserializer.py"), ("UDPMessageDeserializer", M + "udpdeserializer.py"), ("TemplateDictionary", M + "template_dict.py"), ("EventQueueClient", B + "event_queue.py"),
   ("Capability", B + "caps.py"), ("Settings", B + "settings.py")],
  ["datagrams and requests made", "handler calls", "results and exceptions", "circuits and counters", "results kept to the end"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
