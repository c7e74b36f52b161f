import json,glob,pathlib
V=pathlib.Path('/verif')
head = (V/'DESIGN.md').read_text().split("Specifications (spec/)")[0].rstrip()
P = {}
P["C01"] = """**Specified** `OwnMessage`: Parse (text → message) and Render (message → text) over sequences of character codes. **Model** every text over
{`*`,`#`,`1`,`x`} up to 8 characters (10 thorough) and every message built from small tags: Render∘Parse = identity on accepted texts, Parse∘Render = identity on built messages.
**Code** every frame body over {`*`,`#`,`1`} up to 5 (7) characters, a table of shapes × WHO, 6000 random frames, 8000 built messages, 3700 pairs for equality and hash; judged by `OwnMessageTrace.C01Clauses`.
**Beyond tests**: the tests hold a few frames of each class; here the grammar is enumerated and the expected rendering is computed by the specification. **Bounds** length above, random tags up to 5 digits and 4 parameters."""
P["C02"] = """**Specified** Classify/Parse of `OwnMessage` (class by structure and WHO, ParseError otherwise). **Model** as C01 (TypeShape, Garbage). **Code** 17 000 texts: exhaustive over `*#1 ` up to 6 characters,
mutated frames with exotic characters, plus 138 long texts (2000 and 20 000 repetitions, thorough 100 000) under a 5 s limit: a pattern that backtracks is a `slow` result, whose acceptance is judged on the same text with 4 repetitions."""
P["C03"] = """**Specified** `OwnStream`: an automaton over bytes. **Model** all streams over 5 characters up to 7 bytes in packets of 1–3: what is delivered is a function of the stream, never of the packets (Segmentation), a complete frame is delivered with its last byte.
**Code** TLC-generated packet sequences, every cut of small streams, random streams, and `bulk` records (run-length coded streams of up to 200 000 frames or frames of 10⁵ characters) through the real protocol and through a client. BulkAgrees (an ASSUME) ties the run-length arithmetic to the automaton."""
P["C04"] = """Same automaton with malformed bytes: a bad byte kills its packet, not the frames before it, and leaves nothing for later (Contained). **Code** every bad byte value at every position of small streams, non-ASCII, and a client that must lose its connection."""
P["C05"] = """ValidTag and OneFrame of `OwnMessage`. **Code** every text over `01#*a` up to 4 (6) characters and every character up to U+012B (U+1116F thorough) for six tag classes and generic messages; 10 000 frames built from good and bad tags must be exactly one frame or InvalidTag."""
P["C06"] = """`OwnTags` (Base, Params, WithParam, WhoTable). **Code** all enumerations of WHAT/DIMENSION, random parametrised tags, 13 000 comparisons with tags, strings, integers and strangers, the whole WHO table and 1100 other codes."""
P["C07"] = """WhereKind of `OwnTags`, from the WHERE table of WHO 1. **Code** every address of the table (with all local-bus suffixes), 10 800 in all. Addresses outside the table are not judged."""
P["C08"] = """`OwnPassword`: the ten digit operations on 32-bit words as bit sequences, decimal text by doubling. **Model** every word of a small set × every digit sequence up to a depth: rotations invert, complement is an involution, words stay words. **Code** all single digits and pairs on corner words, random passwords and nonces as text and number."""
P["C09"] = """ToDigits/ToHex of `OwnTags`; digests are compared with SHA values computed outside the code under test on the concatenation that the specification gives. **Code** 1500 hex strings, 600 digests over odd passwords, key freshness over 200 keys, 142 algorithm numbers."""
P["C10"] = """`OwnSession`: the client as a state machine over frames and time. **Model** every conversation with a gateway that may send any frame kind, two per packet, wait 4.99/5.01 s or drop at any point (Accepted, NoEarlySend, FirstFrame, NackOnly, Ends, Absorbing). **Code** all 2678 conversations of the model replayed, documented conversations with waits just under the limit, all merges of frames into packets, random ones, all connection errors; every frame sent and the state of start() after each step is judged."""
P["C11"] = """Same model with an adversary gateway (`honest = FALSE`) and an injective hash: without the password it is never accepted (Mutual). **Code** 22 kinds of proofs × passwords × algorithms × server keys, single-digit flips at random positions, key freshness; SHA values come from an oracle table in the record."""
P["C12"] = """`OwnLifecycle`: two clients, operations at each point of their life with outcome and frames (EventQuiet, IdleQuiet). **Code** 800 TLC behaviours, random histories, every item class and loop() variant."""
P["C13"] = """`OwnReader`: inbox, waiting reads with deadlines, virtual milliseconds (Once, InOrder, NoIdleWait, OnTime, Settled). **Code** 1500 TLC behaviours including cancellations and timeouts that race with an arrival in the same loop iteration, replayed in virtual time."""
P["C14"] = """`OwnFlow`: permission to write, blocked sends; when a blocked send is written is bounded (May/Must), not fixed. **Code** 1500 TLC behaviours on the protocol with a stand-in transport, crowds of up to 300 blocked sends, and end-to-end runs where a gateway that does not read fills the real socket."""
P["C15"] = """`OwnExchange`: exchanges on one client, one active at a time, 5 s limit (889 000 states). **Code** every command method (each table entry once), random and TLC histories; after each operation the frames sent and the state of each caller are matched against the set of possible states. Known finding: see below."""
P["C16"] = """Same specification, requests: values yielded must be a prefix of, and finally equal to, the responses received. **Code** every request method, early breaks, wrong kinds, up to 2500 responses to one request."""
P["C17"] = """Same specification with any number of waiting exchanges (the order in which they get their turn is left open) and commands issued inside an iteration. **Code** 1000 TLC interleavings, crowds of up to 140 tasks, cancellations."""
P["C18"] = """`OwnCatalogue.Call`: for each method the set of frames it may send, or refusal, from the WHO 1, 2, 7, 13, 18 documents. **Model** distinctness of frames, ranges. **Code** every method × addresses × argument ranges and their borders, and the methods that use the current date on 54 dates between 2000 and 2130 (`harness/clockshim.c`, preloaded, shifts the clock of the driver's process only) (9800 calls)."""
P["C19"] = """`OwnCatalogue` decoding operators (Meaning of a response). **Code** 8000 responses: full ranges of small values, random large ones, several responses per request, addresses of any form."""
P["C20"] = """`OwnClock` (proleptic calendar, weekday) and the zone encoding; model walks consecutive days of several years (800, thorough 40 000) and checks DateBack/TimeBack/DateTimeBack. **Code** write, capture, answer with the captured values, read back: equal object and offset."""
P["C21"] = """`OwnEvents`: meaning of each event frame for the callbacks, TLC explores registrations × frames × schedules (Once, InOrder, Right, KeepsUp; liveness AllHeard). **Code** TLC behaviours and every event kind with generated values, bursts, many callbacks; each invocation recorded with its arguments."""
P["C22"] = """Same specification, junk frames and failing callbacks in every position; loop() must stay running and later events heard."""
P["C23"] = """Same specification with the ways a connection ends (EndsOnly, Complete; liveness Ends). **Code** end by EOF, half close, garbage, reset, close() inside and outside callbacks, after bursts, idle for 1–400 virtual days."""
P["C24"] = """ItemOf in `OwnEvents`: identity, class, address and client of items over histories of requests and events; thousands of items per client (`ManyBad`)."""
P["C25"] = """`OwnLifecycle` (NoSharing, Restartable, CloseAnytime, Independent). **Code** as C12, with the connection as the gateway sees it (bytes before EOF), restarts after every kind of failure."""
P["C26"] = """`OwnCustom`: MessageOf(item, call) built on `OwnMessage`. **Model** every small item and call: the gateway parses back what was given (Faithful). **Code** 16 000 calls over all classes, WHO overrides, text and tag arguments, up to 30 values, several calls per item, answers by any item in random packets."""
P["C27"] = """`OwnClients`: n copies of `OwnExchange` that share only time (Independent, NoWait, OwnValues, SentOnce). **Code** 2–5 clients with the same host and the same addresses, two event loops with command clients of their own, two clients read by hand, and other clients that are dropped, refused, silent, fed garbage, closed or misused; each client's history is judged by OwnExchange as if it were alone."""
P["C28"] = """`OwnSecret`: symbolic (Dolev–Yao) model of what the client says in several sessions with a gateway that may reuse anything it saw: neither the password nor Kab is derivable (Secret). **Code** 750 lives of a client with every handshake cut at every point by a drop, garbage or silence; all frames (also decoded), log records from level 1 up, exception texts and tracebacks, printed text, warnings and repr/str are searched for the password and its hashes in every notation."""
P["C29"] = """`OwnCrash`: what a caller gets when only the frames that arrived whole before the loss count (Outcome). **Model** byte by byte: every answer, a loss after any byte, an exchange that takes what arrived, and restarts (Agrees: it ends as Outcome says; Complete: success only with the whole answer; OwnFrames, OwnValues; liveness AllEnd). **Code** every byte of the answers to commands, status and dimension requests (alone and with others waiting), of messages read by hand and of four handshakes × the ways to lose a connection; then close(), start() and one more exchange on the new connection."""
P["C30"] = """`OwnItems`: Made(class, address) and KindOf(address) from the WHERE table of WHO 18. **Model** every text over six characters up to 4 (6) × classes × replaced clients (OneKind, Narrower, NoneLost, Addressed). **Code** the whole table (the trace module checks that it was visited), addresses that are almost in it, every text over `0157#x` up to 3 (5) characters, exotic digits; each as text and as a tag."""
props=[json.loads(l) for l in open(V/'properties.jsonl')]
out=[head,"","""Specifications (spec/): `OwnText` (characters), `OwnMessage`, `OwnTags`, `OwnPassword`, `OwnStream`, `OwnSession`, `OwnSecret`,
`OwnReader`, `OwnFlow`, `OwnLifecycle`, `OwnExchange`, `OwnClients`, `OwnCustom`, `OwnCrash`, `OwnItems`, `OwnCatalogue` + `OwnClock`, `OwnEvents`.  Each `X` has `XMC`
(the state machine that TLC explores, with the invariants; `_thorough.cfg` has larger constants), `XGen*.cfg` where TLC generates behaviours to
replay (simulation, seeded by VERIF_SEED) and `XTrace` (the same operators applied to recorded runs; `OwnVerdict` reads the ndjson and prints
the clauses that fail).  `harness/plans.py` says which of them decide a property.

How a verdict is kept honest: the number of records judged must equal the number recorded; a record that the driver itself got wrong is reported as a
clause `driver: …`; an exception in the driver or a run that does not end is a violation (`driver`, `hang`), because on the unchanged tree neither happens;
TLC failing is exit 2.  Drivers import only public names of pyown and never touch private attributes, so refactorings are invisible to them.

## Properties

Costs are those of the quick tier on 8 cores."""]
for p in props:
    e=V/'evidence'/(p['id']+'.json')
    d=json.load(open(e)) if e.exists() else None
    out.append(f"### {p['id']} {p['title']}\n\n{P[p['id']]}")
    if d:
        c=d['coverage']
        out.append(f"\n*Quick*: {c['traces_validated_against_impl']} records ({', '.join(f'{k} {v}' for k,v in c['records_by_kind'].items())}), {c['states']} model states"
                   + (f", {c['behaviours_generated_by_tlc']} behaviours from TLC" if c['behaviours_generated_by_tlc'] else "") + f", about {round(d['wall_s'])} s.")
    out.append("")
out.append("""No property is left to another technique; `not_applicable` is empty.

## What is deliberately not judged

Each of these began as a false alarm or an ambiguity; the property or the machinery was corrected, never a right check loosened.

* C01/C05: tags ending in `#` and dimensions starting with `#` cannot be told from other frames; the statement excludes them.  C02: `…###` may be accepted or rejected.
* C07: addresses outside the WHERE table.  C08: a nonce of zeros only.
* C10: a server key with numbers above 15 (it can only be refused later; the outcome must still be a documented one), a nonce frame without `#`, `*98##`.
* C14: arming the transport after the connection was lost; when exactly (within 1 s) a blocked send is written.
* C16: `request_status` of Stop&Go collects all responses.  C17: which waiting exchange gets its turn next; two identical frames cannot be told apart and are mapped to the first that fits.
* C19/C21: unknown WHATs of lights, values beyond the documented ones, `1000#` forms for shutters, the order of callbacks of one event, a gateway item asked for with a WHERE.
* C26: the class property `item.who` when a WHO was given to the constructor.
* C30: energy numbers beyond the table (`50`, `1200`) and further parameters of actuators.
* C28: passwords so short that they occur in any text; parts of passwords that are numbers (they occur by chance in keys and proofs).

## Findings

35 defects were repaired with `fix:` commits (list in `known_findings.txt`, one line each).  Two are left as known findings, because the repair is not small and safe:

* **C15 late-reply**: a reply that arrives after the 5 s limit stays queued and the next command takes it.  Replies carry no identification; a repair needs a protocol decision (draining, or closing the session).
* **C18 turn_on_30_min**: sends WHAT 17, which the WHO 1 document defines as 30 *seconds*; the right behaviour of the method name does not exist in the document, so renaming an API would be needed.

## Planted bugs

Written from the statement and the code (tools/seeds/*.py, built and validated by tools/mkseed.py); `seeded/<id>` holds patch, demonstration and meta data.  All are caught by the check of their property.
b06 and b10 were missed at first (no long text of that shape; too few keys) and led to stronger drivers.

| id | check | what it needs |
|----|-------|---------------|""")
for m in sorted(glob.glob(str(V/'seeded/*/meta.json'))):
    d=json.load(open(m)); out.append(f"| {m.split('/')[-2]} | {d['property']} | {d['needs']} |")
out.append("""
Besides, single mutations were run against a scratch copy while building (about 200 by hand), among them *scale* bugs that were missed and then covered: a partial frame cut at 65 536 characters, a packet split into at most 2000 frames,
an item cache cleared above 2000 entries, a read limit of a week in loop(), responses capped at 1024, callback tasks capped at 128.

`tools/sweep.py` applies systematic mutations (conditions, comparisons, constants, strings, deleted/duplicated statements, exceptions) to a package of the library and runs the tests and then the affected checks.
Survivors were read one by one; those left are equivalent or unspecified:
tags and protocol (logger names, the isinstance guard of connection_made, blank packets, a longer poll delay within the allowed second), client (log texts, the redundant outer timeout of the greeting), auth (an unused conversion, unreachable branches),
items (texts of __str__ and of errors, lists of tasks that only serve to log failures, conversions of values that compare equal anyway, base methods that every subclass overrides).

Further batches of hand-written changes (m1-m8, about 230, single and multi-site) were run against all checks of the properties they concern.  Those that were missed at first led to:
exchanges that are abandoned (C17), clients that are closed and started at once (C12, C23, C25), items whose client is replaced (C27), reads cancelled in the turn in which the message arrives (C13),
frames that are almost acknowledgements (C10, C15, C16), items that only the client refers to (C24), frames sent after the reply (C18), parts of frames that reach several clients in turn and gateways that do not read (C27), clients closed and started again while exchanges are in progress (C17),
messages longer than a transport takes at once (C14), separators at the ends of tags (C01), a callback registered again (C21), attempts to connect that fail (C28), reads cancelled on a backlog (C13), zones whose offset depends on the date (C20), tabs between frames (C03), parts of the password (C28), other current dates (C18), callbacks that are methods, partials or objects (C21), Sundays of week 53 (C20), addresses that differ in a later parameter (C24).

Behaviour-preserving rewrites (r1-r4, 46 batches: flow control with an Event, a deque instead of the queue, scanners instead of split, one exchange context manager, dispatch by table, match statements, handshake in pieces,
yields wherever nothing is held, tables for decoders and for the OPEN algorithm, another order in close()) were run against the checks in the same way: they have to stay quiet, also under a load of 50 on 8 cores.
They found two false alarms, both removed by specifying less: which of two pending sends is written first after a resume (C14), and whether a read without time (0 s) returns a message that is already there (C13).""")
(V/'DESIGN.md').write_text("\n".join(out)+"\n")
