------------------------------ MODULE OwnReader ------------------------------
(* Reading messages with timeouts and cancellations (C13).  Anchored in
   pyown/client/base.py (read_message) and pyown/protocol/protocol.py (the queue).

   now     virtual milliseconds
   inbox   messages received and not delivered
   waiting the reads that wait, oldest first: [id, dl], dl = -1: no time limit
   res     the outcome of each read: [s, m], s in "pending" "ok" "timeout" "cancelled" *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Begin == [now |-> 0, inbox |-> <<>>, waiting |-> <<>>, res |-> <<>>]
Without(w, id) == SelectSeq(w, LAMBDA x : x.id # id)
Put(s, id, out) == [s EXCEPT !.res[id] = out]

Arrive1(s, m) == IF s.waiting = <<>> THEN [s EXCEPT !.inbox = Append(@, m)]
                 ELSE Put([s EXCEPT !.waiting = Tail(@)], Head(s.waiting).id, [s |-> "ok", m |-> m])
RECURSIVE Arrive(_, _)
Arrive(s, ms) == IF ms = <<>> THEN s ELSE Arrive(Arrive1(s, Head(ms)), Tail(ms))

\* limit: milliseconds, -1 for none
Read(s, limit) ==
  LET id == Len(s.res) + 1
      out(o, m) == [s EXCEPT !.res = Append(@, [s |-> o, m |-> m])]
  IN  IF s.inbox # <<>> THEN [out("ok", Head(s.inbox)) EXCEPT !.inbox = Tail(@)]
      ELSE IF limit = 0 THEN out("timeout", <<>>)
      ELSE [out("pending", <<>>) EXCEPT
              !.waiting = Append(@, [id |-> id, dl |-> IF limit = -1 THEN -1 ELSE s.now + limit])]

Due(s, t) == {i \in 1..Len(s.waiting) : s.waiting[i].dl # -1 /\ s.waiting[i].dl <= t}
Elapse(s, ms) ==
  LET t == s.now + ms
      late == {s.waiting[i].id : i \in Due(s, t)}
  IN  [s EXCEPT !.now = t, !.waiting = SelectSeq(@, LAMBDA x : x.id \notin late),
                !.res = [i \in 1..Len(@) |-> IF i \in late THEN [s |-> "timeout", m |-> <<>>] ELSE @[i]]]

Waits(s, id) == \E i \in 1..Len(s.waiting) : s.waiting[i].id = id
Cancel(s, id) == IF ~Waits(s, id) THEN s
                 ELSE Put([s EXCEPT !.waiting = Without(@, id)], id, [s |-> "cancelled", m |-> <<>>])

\* many reads in a row that do not wait
RECURSIVE ReadMany(_, _)
ReadMany(s, k) == IF k = 0 THEN s ELSE ReadMany(Read(s, 0), k - 1)

\* the states that may follow an operation; the last three are races, which may be resolved either way
Next1(s, o) ==
  CASE o.op = "arrive"  -> {Arrive(s, o.ms)}
    [] o.op = "read"    -> {Read(s, o.n)}
    [] o.op = "readmany" -> {ReadMany(s, o.n)}
    [] o.op = "elapse"  -> {Elapse(s, o.n)}
    [] o.op = "cancel"  -> {Cancel(s, o.n)}
    [] o.op = "racecancel"  -> {Arrive(Cancel(s, o.n), o.ms), Cancel(Arrive(s, o.ms), o.n)}
    [] o.op = "readcancel" -> {Cancel(Read(s, o.n), Len(s.res) + 1), [s EXCEPT !.res = Append(@, [s |-> "cancelled", m |-> <<>>])]}
    [] o.op = "racetimeout" -> {Arrive(Elapse(s, o.n), o.ms), Elapse(Arrive(s, o.ms), o.n)}
===============================================================================
