#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long statements stay readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })

p("C01", "Messages survive the round trip through their wire text",
  """Every message built from valid tags (WHO, WHAT, WHERE, DIMENSION, values; no tag ending in '#', a DIMENSION
  that does not start with '#', non-empty in a dimension request, and at least one value in a dimension response and in a writing with an
  empty DIMENSION) renders to one frame that parse_message turns back into an equal message
  of the same type, with equal tags and equal hash, and messages that differ in type or in a tag never compare equal.
  Conversely any frame that parse_message accepts renders back to exactly the same text (surrounding whitespace aside),
  as str(), .message and as ASCII .bytes. What .tags returns is a copy: changing it does not change the message.""",
  ["inputs"], "all tag contents (with and without parameters, empty tags, any number of values) and all frames",
  "the tests parse about a dozen fixed frames; the claim is over all tag combinations, where empty values, parameters and unknown WHOs interact",
  ["pyown/messages/base.py", "pyown/messages/dimension.py", "pyown/messages/normal.py", "pyown/messages/status.py", "pyown/tags/base.py"],
  [("parse_message", "pyown/messages/base.py"), ("message properties", "pyown/messages/*.py"), ("BaseMessage.__eq__/__hash__", "pyown/messages/base.py")],
  observe=["parse_message", "str(message)", "message.bytes", "message.tags"])

p("C02", "Every text is either classified as documented or rejected as a parse error",
  """For every string, parse_message promptly either returns the message class that the protocol syntax prescribes (ACK, NACK,
  normal, status request, dimension request, dimension writing, dimension response) with each tag in its place, or a generic message when
  the structure or the WHO is unknown, or raises a ParseError when it is not exactly one frame '*' + digits, '#' and '*' + '##'.
  (A text ending in '###' may be accepted or rejected.)  No input makes it raise anything else or run for a time that grows faster than the input.""",
  ["inputs"], "all strings, including adversarially long and malformed ones",
  "the tests cover single well-formed examples per class; they contain no unknown WHO, no boundary between classes and no long malformed input",
  ["pyown/messages/base.py", "pyown/messages/ack.py", "pyown/messages/nack.py", "pyown/messages/normal.py", "pyown/messages/status.py", "pyown/messages/dimension.py"],
  [("regex per class, tried in order", "pyown/messages/*.py"), ("parse_message", "pyown/messages/base.py")],
  observe=["parse_message"])

p("C03", "Received messages do not depend on how TCP splits the stream",
  """For every byte stream of well-formed frames (several per packet, blanks between frames allowed) and every way of cutting it into packets, the
  messages a client reads are exactly the frames of the stream, each once, complete, with the right type and in order; a frame is
  readable as soon as its last byte has arrived and an incomplete frame is never delivered.""",
  ["inputs", "schedules"], "all frame sequences and all segmentations, down to one byte per packet and cuts inside '##'",
  "one test feeds one whole frame in one call; no test splits or concatenates frames",
  ["pyown/protocol/protocol.py"],
  [("OWNProtocol.data_received", "pyown/protocol/protocol.py")],
  [("pending input", "bytes after the last complete frame", "pyown/protocol/protocol.py")],
  observe=["OWNProtocol.data_received / receive_messages", "Client.read_message"])

p("C04", "A malformed byte never corrupts, hides or invents a message",
  """When the stream contains a byte that cannot belong to a frame, every frame completed before it (even in the same packet) is still
  delivered in order, no message is produced from the malformed part, and the error is reported at once: ParseError (UnicodeDecodeError for
  non-ASCII bytes) from the protocol, which ends the connection of a client.  Nothing of the malformed part leaks into frames received later
  by the same protocol.""",
  ["inputs", "fault_sequences"], "all streams with a malformed byte at any position and any segmentation",
  "the tests feed two constant garbage strings and only look at the exception type, never at what was or was not delivered",
  ["pyown/protocol/protocol.py", "pyown/messages/base.py"],
  [("OWNProtocol.data_received", "pyown/protocol/protocol.py"), ("parse_message", "pyown/messages/base.py")],
  observe=["OWNProtocol.data_received", "Client.read_message", "connection state"])

p("C05", "Tags accept exactly the legal characters, so a message is always one frame",
  """A tag (tag, value, WHAT, WHERE, DIMENSION, generic message parse) can be created from a string or non-negative integer if and only if its text consists
  of digits and '#' and does not contain '##'; anything else raises InvalidTag.  Hence any message built from accepted tags (none ending in '#', the DIMENSION of a writing being a number with optional parameters) is sent as exactly
  one frame that starts with '*', ends with '##' and contains no other '##'.""",
  ["inputs"], "all strings and integers as tag contents, in every tag position of every message class",
  "the tests try three invalid strings; frame injection through a tag is not tested at all",
  ["pyown/tags/base.py", "pyown/messages/base.py"],
  [("is_valid_tag", "pyown/tags/base.py"), ("Tag.__init__", "pyown/tags/base.py")],
  observe=["Tag()", "What()", "Where()", "Dimension()", "Value()", "GenericMessage.parse"])

p("C06", "Tags decompose, extend and compare by their text",
  """For every parametrised tag the text is its base followed by '#' and each parameter in order, and with_parameter appends exactly one parameter
  without changing the original, for plain tags and for the members of every WHAT and DIMENSION enumeration.  Tags compare equal to tags, strings and
  integers exactly when the texts are equal and never to anything else, and equal tags have equal hashes.
  Every documented WHO member has its documented code and a distinct non-empty name, each code maps to one member, and any other code is rejected.""",
  ["inputs"], "all tag texts, all enumeration members, all parameters and WHO codes",
  "the tests check three literals; enumeration members and the complete WHO table are not exercised",
  ["pyown/tags/base.py", "pyown/tags/who.py", "pyown/tags/what.py", "pyown/items/energy/enums.py"],
  [("TagWithParameters", "pyown/tags/base.py"), ("who_map", "pyown/tags/who.py")],
  observe=["tag.string", "tag.tag", "tag.parameters", "tag.with_parameter", "==", "hash", "Who.name"])

p("C07", "WHERE addresses are classified as the WHERE table documents",
  """For every address of the documented WHERE table (general 0; areas 00, 1-9, 100; points 0001-0015, 11-99, 1001-1015, 0110-0915; groups #1-#255; each also with a
  local bus suffix #4#I) Where.type gives the documented kind: general, ambient (area), light point or group, and a local bus suffix after the general address or alone is the local bus.""",
  ["inputs"], "all addresses of the documented table, with and without every interface number",
  "Where.type has no test at all (the code has a TODO for them)",
  ["pyown/tags/where.py"],
  [("Where.type", "pyown/tags/where.py")],
  observe=["Where.type"])

p("C08", "The OPEN password answer is the documented function of password and nonce",
  """For every numeric password below 2^32 and every digit-string nonce, given as text or number, the computed OPEN answer is the decimal text of the 32-bit word obtained by applying the
  documented operation of each nonce digit in turn (rotations, byte swaps, complement) to the password, digits 0 leaving it unchanged and leading zeros having no effect.""",
  ["inputs"], "all passwords and all nonces",
  "one test compares a few fixed pairs; it does not reach every digit operation on words with all bit patterns",
  ["pyown/auth/open.py"],
  [("own_calc_pass", "pyown/auth/open.py")],
  observe=["own_calc_pass", "the answer frame on the wire"])

p("C09", "HMAC digests and the digit encoding follow the documented scheme",
  """Converting hexadecimal text to two decimal digits per hex digit and back is lossless for every hex string (of any letter case, result lower case).  For every pair of keys, password and algorithm the client and
  server digests are the SHA-1/SHA-256 of Ra Rb A B Kab and of Ra Rb Kab with Kab the hash of the password, generated keys have the length of the algorithm and are not
  repeated, and algorithm numbers map 1 to SHA-1, 2 to SHA-256 (whose messages are *98*1## and *98*2##) and anything else to an error.""",
  ["inputs"], "all hex strings, keys, passwords and algorithms",
  "no test touches pyown/auth/hmac.py",
  ["pyown/auth/hmac.py", "pyown/auth/enum.py"],
  [("client_hmac/server_hmac", "pyown/auth/hmac.py"), ("hex_to_digits/digits_to_hex", "pyown/auth/hmac.py"), ("create_key", "pyown/auth/hmac.py")],
  observe=["client_hmac", "server_hmac", "hex_to_digits", "digits_to_hex", "create_key", "AuthAlgorithm.from_string"])

p("C10", "Connecting follows the documented handshake, whatever the gateway does",
  """start() waits for the gateway's ACK, announces the session type, answers the authentication the gateway asks for (none, OPEN nonce, HMAC) and returns
  only after the gateway (or the HMAC proof) accepted it, sending exactly the documented frames in order and nothing before its turn.  Every other gateway behaviour (NACK, wrong frame, unknown algorithm, refused
  password, OPEN for a password that is not a number) makes it raise InvalidAuthentication, sending NACK only for an unknown HMAC algorithm, and silence or an unreachable host makes it raise TimeoutError (5 s per expected frame).""",
  ["histories", "fault_sequences", "configurations"], "all gateway message sequences, session types and authentication methods",
  "start() is never executed by the tests",
  ["pyown/client/base.py", "pyown/client/session.py", "pyown/auth/open.py", "pyown/auth/enum.py"],
  [("BaseClient.start", "pyown/client/base.py"), ("BaseClient._authenticate_open", "pyown/client/base.py"), ("SessionType.to_message", "pyown/client/session.py")],
  [("handshake phase", "which frame the client is waiting for", "pyown/client/base.py")],
  observe=["frames on the wire", "result of start()"])

p("C11", "HMAC authentication is mutual",
  """With HMAC authentication (SHA-1 or SHA-256, any server key) the client answers the server key with '*#Rb*digest##' where Rb is a fresh key and the digest proves the
  password for exactly these keys, and start() succeeds if and only if the gateway then presents the digest that proves the password for these keys; on success the client
  confirms with ACK.  A gateway that does not know the password, replays an old proof, echoes the client's digest, or sends anything else is refused with InvalidAuthentication and gets no ACK for it.""",
  ["histories", "fault_sequences", "inputs"], "all gateway answers (correct, wrong password, replayed, reflected, truncated, malformed) and keys",
  "the HMAC handshake is never executed by the tests",
  ["pyown/client/base.py", "pyown/auth/hmac.py"],
  [("BaseClient._authenticate_hmac", "pyown/client/base.py"), ("compare_hmac", "pyown/auth/hmac.py")],
  observe=["frames on the wire", "result of start()"])

p("C12", "Operations outside the session they belong to are refused and send nothing",
  """An event session never puts a command frame on the wire unless the send is forced; a client that was not started, or was closed, sends and reads nothing.  Each such
  attempt (send_message, read_message, item commands, and loop() on a command session or a client that is not connected) raises InvalidSession immediately, for every history of start, close and previous
  attempts, while both kinds of command session can send.""",
  ["histories", "configurations"], "all session types and all sequences of start/close/send/read/loop calls",
  "a test only checks the frame of one session type; no session is ever opened",
  ["pyown/client/base.py", "pyown/client/client.py", "pyown/client/session.py"],
  [("BaseClient.send_message/read_message", "pyown/client/base.py"), ("Client.loop guard", "pyown/client/client.py"), ("is_cmd_session", "pyown/client/base.py")],
  observe=["exceptions", "frames on the wire"])

p("C13", "Reads deliver each message once, in order, and time out without losing any",
  """Successive read_message calls return the received messages in arrival order, each exactly once, however arrivals, reads, timeouts and cancellations of reads interleave.
  A read returns as soon as a message is available and otherwise raises TimeoutError exactly when its timeout (5 s by default, never for None) has passed; a message that arrives
  after a timed-out or cancelled read is returned by the next read.""",
  ["schedules", "histories"], "all interleavings of arrivals, reads, timeouts and cancellations",
  "the tests read one message that is already queued",
  ["pyown/client/base.py", "pyown/protocol/protocol.py"],
  [("BaseClient.read_message", "pyown/client/base.py"), ("OWNProtocol.receive_messages", "pyown/protocol/protocol.py")],
  [("message queue", "received and not yet read", "pyown/protocol/protocol.py")],
  observe=["Client.read_message", "OWNProtocol.receive_messages"])

p("C14", "Flow control: nothing is written while paused, everything exactly once after",
  """While the transport has paused writing no message is written; each pending send writes its message exactly once, whole, within a short time after writing resumes (a send that is not blocked writes at once), and
  completes only after it was written.  If the connection is lost while sends are blocked they all finish, and pausing and resuming can alternate any number of times.""",
  ["schedules", "fault_sequences"], "all interleavings of pause, resume, sends and connection loss",
  "pause_writing, resume_writing and send_message are not tested",
  ["pyown/protocol/protocol.py"],
  [("OWNProtocol.pause_writing/resume_writing/send_message", "pyown/protocol/protocol.py")],
  [("writing paused", "between pause_writing and resume_writing", "pyown/protocol/protocol.py")],
  observe=["transport.write calls", "completion of send_message"])

p("C15", "A command succeeds exactly when the gateway acknowledges it",
  """Every item command (action or dimension writing) sends its frame exactly once and then returns normally if and only if the gateway's reply is ACK; NACK or any other frame raises ResponseError,
  and no reply within 5 seconds raises TimeoutError.  The command never completes before the reply, and after ACK or NACK the same client can run further commands with the same guarantee.""",
  ["histories", "fault_sequences", "inputs"], "all commands, gateway replies, reply delays and command sequences",
  "no item command is ever executed by the tests",
  ["pyown/items/base.py", "pyown/items/camera/camera.py"],
  [("BaseItem.send_normal_message/send_dimension_writing", "pyown/items/base.py"), ("BaseItem._check_ack", "pyown/items/base.py")],
  observe=["frames on the wire", "result of the command"])

p("C16", "A request yields exactly the responses that precede the final ACK",
  """A status or dimension request sends its frame once and yields every response the gateway sends before the ACK, in order, each once, and nothing more (single-value requests return the first and
  raise ResponseError if there is none).  A NACK or a response of the wrong kind raises ResponseError and missing replies raise TimeoutError; the replies are all consumed, so the
  next exchange on the client starts clean even if the caller stops iterating early.""",
  ["histories", "inputs", "fault_sequences"], "all numbers and kinds of responses, delays between them and consumer behaviours",
  "no request is ever executed by the tests",
  ["pyown/items/base.py"],
  [("BaseItem.send_status_request/send_dimension_request", "pyown/items/base.py"), ("BaseItem._single_dim_req", "pyown/items/base.py")],
  observe=["values yielded", "frames on the wire"])

p("C17", "Concurrent exchanges on one client never receive each other's replies",
  """When any number of tasks run commands and requests on the same client at the same time, and the gateway answers each received frame in order, every
  task gets precisely the replies to its own frame: its values, its ACK, its NACK.  At most one exchange is unanswered at a time, every frame is sent exactly once, and all tasks finish,
  including commands issued from inside an iteration over a request.  A task that is cancelled or gives up, whether its frame was sent or not, does not keep the others from going on.""",
  ["schedules", "histories"], "all interleavings of concurrent tasks, of gateway replies and of failing exchanges",
  "the tests never run two operations concurrently",
  ["pyown/items/base.py", "pyown/client/base.py"],
  [("one exchange at a time per client", "pyown/items/base.py")],
  [("exchange lock", "held from send to last reply", "pyown/client/base.py")],
  observe=["results of concurrent item calls", "frames on the wire"])

p("C18", "Each item method sends the documented frame; out-of-range arguments send nothing",
  """For every item, address and argument, each command and request method of Light, Dimmer, Automation, Camera, EnergyManagement, StopGo and Gateway sends exactly the frame that the OpenWebNet documents prescribe for it (WHO, WHAT or DIMENSION,
  parameters and values in order, addressed to the item's WHERE; a day, month or year that is not given is the current one).  Arguments outside the ranges that the methods validate (dimmer speed, level, hue, saturation, value, white temperature,
  temporization, camera dial, missing timezone) raise ValueError and send nothing.""",
  ["inputs"], "all methods, addresses and argument values",
  "three tests compare hand-built camera frames; the methods themselves are not called",
  ["pyown/items/lighting/base.py", "pyown/items/lighting/light.py", "pyown/items/lighting/dimmer.py", "pyown/items/automation/automation.py", "pyown/items/camera/camera.py", "pyown/items/energy/energy.py", "pyown/items/energy/stop_go.py", "pyown/items/gateway/gateway.py"],
  [("item methods and WHAT/DIMENSION enums", "pyown/items/**")],
  observe=["frames on the wire", "exceptions"])

p("C19", "Responses are decoded to the documented values",
  """For every well-formed response each query method returns the documented meaning of its values: light and dimmer status, level and speed, temporization, working time, HSV, white temperature, shutter state,
  power and energy readings, actuator flags, totalizer date and energy, Stop&Go mask and single flags, gateway time, date, addresses, model, versions and uptime, always paired with the
  responding address where the method yields one.""",
  ["inputs"], "all response values within the documented ranges",
  "no query method is executed by the tests",
  ["pyown/items/lighting/base.py", "pyown/items/lighting/light.py", "pyown/items/lighting/dimmer.py", "pyown/items/automation/automation.py", "pyown/items/energy/energy.py", "pyown/items/energy/stop_go.py", "pyown/items/gateway/gateway.py"],
  [("get_*/request_* methods", "pyown/items/**")],
  observe=["values returned by the query methods"])

p("C20", "A date, time or timezone written to the gateway reads back the same",
  """For every time, date and datetime (to the second) with a fixed whole-hour UTC offset from -23 to +23 hours, the values sent by set_time, set_date and set_datetime are the documented ones (two digits, three-digit zone with
  sign digit, day of week with 00 for Sunday, four-digit year from 1000) and reading the same values back with get_time, get_date and get_datetime yields an equal object with the same offset.
  A missing timezone, or one without an offset of its own, raises ValueError and sends nothing.""",
  ["inputs"], "all dates, times and whole-hour offsets",
  "the gateway item is not tested",
  ["pyown/items/gateway/gateway.py"],
  [("Gateway._tz_to_own_tz/_parse_own_timezone", "pyown/items/gateway/gateway.py"), ("Gateway.set_*/get_*", "pyown/items/gateway/gateway.py")],
  observe=["frames on the wire", "values returned"])

p("C21", "Every event reaches each registered callback exactly once with the right data",
  """While loop() runs on an event session, each event frame of a supported kind invokes every callback registered for that event exactly once, in arrival order, with the item of that WHO and WHERE and
  the decoded values in the documented order, and invokes no other callback.  Events whose decoding has a query counterpart deliver the same value as the query would for the same response.""",
  ["inputs", "histories", "schedules"], "all event frames, sequences, segmentations and callback registrations",
  "loop() and the callbacks are never run by the tests",
  ["pyown/client/client.py", "pyown/items/lighting/base.py", "pyown/items/automation/automation.py", "pyown/items/camera/camera.py", "pyown/items/energy/energy.py", "pyown/items/gateway/gateway.py"],
  [("Client.loop/_dispatch_callbacks", "pyown/client/client.py"), ("call_callbacks of each item class", "pyown/items/**")],
  observe=["callback invocations and arguments"])

p("C22", "No event frame or callback failure stops the event loop",
  """Frames that the library does not support (acknowledgements, generic messages, unsupported WHO, WHAT, WHERE or dimension, missing or malformed values, requests and writings) and callbacks that raise, block or
  take long never terminate loop(), never invoke callbacks with wrong data and never prevent later events or other callbacks from being delivered.""",
  ["inputs", "fault_sequences", "histories"], "all unsupported frames and callback failures at any position of the event history",
  "loop() is never run by the tests",
  ["pyown/client/client.py"],
  [("error handling of Client.loop/_dispatch_callbacks/_check_task_result", "pyown/client/client.py")],
  observe=["loop() still running", "callback invocations after the fault"])

p("C23", "The event loop ends when, and only when, the connection ends",
  """loop() returns normally soon after the connection is dropped by the gateway, lost with an error, ended by malformed data, or closed by the client (also from inside a callback), after dispatching every event received
  before the drop; it never returns or raises while the connection is up, however long it is idle.""",
  ["schedules", "crash_points", "fault_sequences"], "all points of the event history at which the connection can end, and all ways it can end",
  "loop() is never run by the tests",
  ["pyown/client/client.py", "pyown/protocol/protocol.py"],
  [("Client.loop", "pyown/client/client.py"), ("OWNProtocol.connection_lost", "pyown/protocol/protocol.py")],
  observe=["completion of loop()", "callback invocations"])

p("C24", "One item per WHO and WHERE in a client",
  """get_item returns the same item for the same WHO and WHERE for the whole life of a client, of the class that supports that WHO, with that address and the client given on first use; different WHO or
  WHERE give different items, an unsupported WHO raises KeyError, an address the item class rejects raises InvalidTag, and a failed request leaves nothing behind.  Events are delivered with these same items, bound to the client given to loop().""",
  ["histories", "inputs"], "all sequences of item requests and events",
  "get_item is not tested",
  ["pyown/client/client.py", "pyown/items/utils.py", "pyown/items/energy/energy.py", "pyown/items/energy/stop_go.py"],
  [("Client.get_item", "pyown/client/client.py"), ("ITEM_TYPES", "pyown/items/utils.py"), ("EnergyManagement.get_type", "pyown/items/energy/energy.py")],
  [("item cache", "items by WHO and WHERE", "pyown/client/client.py")],
  observe=["Client.get_item", "items passed to callbacks"])

p("C25", "Clients can be closed at any time and started again",
  """close() never fails, at any point of a client's life and any number of times, ends the connection (the gateway sees it closed, after everything already sent) and leaves the client as one that was not started; start() then, also at once, opens a
  new working session to the same host and port that shares no messages with the previous one.""",
  ["histories", "crash_points"], "all sequences of start, use, failure, drop, close and restart",
  "no connection is ever opened by the tests",
  ["pyown/client/base.py", "pyown/protocol/protocol.py"],
  [("BaseClient.start/close", "pyown/client/base.py"), ("OWNProtocol.connection_lost", "pyown/protocol/protocol.py")],
  observe=["close()", "start()", "the connection seen by the gateway"])

p("C26", "Custom messages of an item carry its WHO and WHERE and exactly what was given",
  """For every item class, address, WHO (that of the class, or the one given to the constructor), WHAT, DIMENSION and values, given as text or as tags, with or without parameters: create_normal_message,
  create_status_message, create_dimension_request_message and create_dimension_writing_message build exactly the frame of that kind with those tags in that order; send_normal_message, send_status_request,
  send_dimension_request and send_dimension_writing send exactly that frame and nothing else, and the requests yield every message of the answer unchanged and in order.""",
  ["inputs"], "all item classes, addresses, tags and answers",
  "the items are not tested",
  ["pyown/items/base.py", "pyown/messages/**", "pyown/tags/**"],
  [("BaseItem.create_*/send_*", "pyown/items/base.py")],
  observe=["BaseItem.create_*_message", "frames on the wire", "messages yielded"])

p("C27", "Clients in one process do not disturb each other",
  """Any number of clients can be used at the same time in one process, to the same gateway or to different ones.  Each behaves as if it were alone: its commands and requests are sent on its own connection, wait only for its own
  earlier ones and are answered only by its own gateway; messages and events reach only the client whose connection they came from, with that client's items; an item uses the client that it was created with or that was assigned to it since; and a gateway that is silent, refuses, sends malformed data or goes
  away affects only the client connected to it.""",
  ["schedules", "histories", "fault_sequences"], "all interleavings of the use and the failures of several clients",
  "no test opens a connection",
  ["pyown/client/base.py", "pyown/client/client.py", "pyown/protocol/protocol.py", "pyown/items/base.py"],
  [("state of BaseClient, Client and OWNProtocol", "pyown/client/**")],
  [("client", "connection, queue, exchange lock and items of each client", "pyown/client/base.py")],
  observe=["frames on each connection", "results of each caller", "callbacks"])

p("C28", "The password is never disclosed",
  """For every handshake (OPEN, HMAC or none; successful, refused, malformed, interrupted at any point) and the use of the client after it, neither the password (or half of it) nor the hash of it that proves its knowledge (Kab) appears, in any
  notation, in what is sent to the gateway, in log records of any level, in the text of exceptions or in the textual form of the client; the gateway only receives the OPEN answer or the HMAC proof.  (Nonces
  for which the OPEN answer is the password itself excepted.)""",
  ["inputs", "fault_sequences"], "all passwords, handshakes, answers of the gateway and points of failure",
  "the handshake is not tested",
  ["pyown/client/base.py", "pyown/auth/**", "pyown/protocol/protocol.py"],
  [("BaseClient._authenticate_open/_authenticate_hmac", "pyown/client/base.py"), ("logging of messages", "pyown/protocol/protocol.py")],
  observe=["frames on the wire", "log records", "exceptions", "repr and str of the client"])

p("C29", "A connection lost at any byte ends what is in progress and leaves nothing behind",
  """Whatever byte of the gateway's answer is the last to arrive before the connection is lost (closed, reset, half-closed or ended by malformed data; in the middle of a frame, between frames or just after the
  ACK), every call in progress ends within its time limit: with the complete result if the whole answer arrived, otherwise with an error, never with part of the answer as its result or with values that did not
  arrive whole; calls that wait for their turn end too, with an error; messages that arrived whole can still be read, in order; start() succeeds only if the whole handshake arrived.  After close() and start() the
  client works as new on the new connection, which sees nothing of the lost one: no bytes, frames or replies of it are used, and no caller waits for it.""",
  ["crash_points", "fault_sequences", "histories"], "all answers, points at which the connection is lost, ways of losing it and calls in progress or waiting",
  "no test opens a connection; the last byte that arrives is a crash point of which there are as many as bytes",
  ["pyown/protocol/protocol.py", "pyown/client/base.py", "pyown/items/base.py"],
  [("OWNProtocol.data_received/connection_lost", "pyown/protocol/protocol.py"), ("BaseClient.read_message/start/close", "pyown/client/base.py"), ("BaseItem.send_*", "pyown/items/base.py")],
  [("partial", "text of the frame that has not ended yet", "pyown/protocol/protocol.py")],
  observe=["results and errors of calls", "messages read", "the connection seen by the gateway"])

p("C30", "Items are created for the addresses of their class and know their kind",
  """For every item class and every address, given as text or as a WHERE: the item keeps that address and the client that it was given (or that was assigned to it since), whatever else is created, and creating it sends
  nothing; a text that is not a WHERE raises InvalidTag.  EnergyManagement can be created for every address of the WHO 18 table (1N with N 1-127, 5N with N 1-255, 7N#0 with N 1-255) and get_type() tells Stop&Go devices,
  power meters and actuators apart by it; StopGo can be created exactly for the Stop&Go ones; addresses of any other form (other first digits, nothing or something else than digits after the first, parameters after 1N or 5N,
  7N without #0) raise InvalidTag.""",
  ["inputs"], "all item classes and all addresses (numbers beyond those of the table are not judged)",
  "no item is created by the tests",
  ["pyown/items/base.py", "pyown/items/energy/energy.py", "pyown/items/energy/stop_go.py", "pyown/items/gateway/gateway.py"],
  [("EnergyManagement.get_type", "pyown/items/energy/energy.py"), ("StopGo.__init__", "pyown/items/energy/stop_go.py"), ("BaseItem.__init__", "pyown/items/base.py")],
  observe=["constructors", "item.where", "item.client", "get_type()"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
print(len(P), "properties")
