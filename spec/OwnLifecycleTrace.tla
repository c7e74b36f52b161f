--------------------------- MODULE OwnLifecycleTrace ---------------------------
(* Lives of real clients judged by OwnLifecycle.  For each operation: its outcome,
   the frames each gateway connection received, whether each connection is ended,
   and the connections opened.  late: the outcomes of tasks that were waiting when
   their client was closed; rest: what was received after the last operation.      *)
EXTENDS OwnLifecycle, OwnText, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

Joined(frames) == Cat(frames)
Greeting(type) == <<42, 57, 57, 42>> \o SessionCode(type) \o <<35, 35>>

WireOk(w, k, o) ==
  LET sent == o.wires[o.c]
  IN  CASE w.wire = "none" -> sent = <<>>
        [] w.wire = "text" -> Joined(sent) = o.text
        [] w.wire = "some" -> Len(sent) >= 1
        [] w.wire = "greeting" -> Len(sent) >= 1 /\ sent[1] = Greeting(k.type)
        [] OTHER -> Len(sent) = 0 \/ sent[1] = Greeting(k.type)

OpBad(ks, o, r) ==
  LET k == ks[o.c]
      w == Want(k, o.op)
  IN  If(Enabled(k, o.op), "driver: not enabled")
      \cup If(o.res = w.res, IF w.res = "session" THEN "not refused" ELSE "outcome of " \o o.op)
      \cup If(w.res = "session" => ~o.waited, "not refused at once")
      \cup If(WireOk(w, k, o), IF w.wire = "none" THEN "frame sent" ELSE "frame")
      \cup If(w.res = "message" => o.got = Head(k.inbox), "message")
      \cup If(\A i \in 1..Len(ks) : i # o.c => o.wires[i] = <<>>, "another client")
      \cup If(\A i \in 1..Len(ks) : i # o.c /\ ks[i].ph = "up" => ~o.eof[i], "another connection ended")
      \cup If(Ends(k, o.op) => o.eof[o.c], "connection kept")
      \cup If(After(k, o.op, o.text).ph = "up" => ~o.eof[o.c], "connection ended")
      \cup If(o.op = "reopen" => o.ended, "connection kept")
      \cup If(o.op \in {"start", "nack", "stall", "reopen"} => o.opened = 1 /\ o.to, "connection to another gateway")
      \cup If(o.op \notin Starts => o.opened = 0, "connection opened")

RECURSIVE Walk(_, _, _)
Walk(ks, r, i) ==
  IF i > Len(r.ops)
  THEN If(\A j \in 1..Len(r.rest) : r.rest[j] = <<>>, "sent later")
       \cup If(\A j \in 1..Len(r.late) : r.late[j].res # "ok", "an operation of a closed session succeeded")
  ELSE LET o == r.ops[i]
           b == OpBad(ks, o, r)
       IN  IF b # {} THEN b
           ELSE Walk([ks EXCEPT ![o.c] = After(@, o.op, o.text)], r, i + 1)

LifeClauses(r) == Walk([j \in 1..Len(r.types) |-> NewClient(r.types[j])], r, 1)
C12Clauses(r) == LifeClauses(r)
C25Clauses(r) == LifeClauses(r)
===============================================================================
