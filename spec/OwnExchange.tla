------------------------------ MODULE OwnExchange ------------------------------
(* Commands and requests of the items on one client (C15, C16, C17).
   Anchored in pyown/items/base.py (_send_command, _send_request and their callers) and
   pyown/client/base.py (exchange_lock, read_message).

   An exchange: kind  "cmd" (action or dimension writing), "status", "dims" (a request
                      that yields values), "one" (a request for a single value)
                brk   the caller stops after so many values (99: it does not stop)
                inner the caller runs a command for each value it gets
                par   the exchange inside whose iteration it was issued (0: none)
                st    "wait" (not sent), "active" (sent, not over), "iter" (over, the caller
                      is still at value idx), "ok", "refused" (ResponseError), "timeout", "cancelled"
                      (a caller that gave up before its frame was sent) or "abandoned" (after that)
                got   the responses received; out the values handed to the caller
   A reply of the gateway: [f |-> "ack" | "nack" | "normal" | "dim" | "other", id |-> n].

   The gateway answers only the frame that it received last and never after its final
   reply; the replies carry no reference to the request, so nothing but the discipline
   "one exchange at a time" keeps them apart.                                          *)
EXTENDS Naturals, Sequences, FiniteSets

Limit == 5000     \* milliseconds of silence that end an exchange

Start(kind, brk, inner, par) ==
  [kind |-> kind, brk |-> brk, inner |-> inner, par |-> par, st |-> "wait", got |-> <<>>, out |-> <<>>, idx |-> 0]
Idle == [act |-> 0, clock |-> 0, ex |-> <<>>]

Waiting(s) == {i \in 1..Len(s.ex) : s.ex[i].st = "wait"}
Over(e) == e.st \in {"ok", "refused", "timeout", "cancelled", "abandoned"}

Good(e, f) == IF e.kind = "status" THEN f.f = "normal" ELSE f.f = "dim"
Ids(q) == [i \in 1..Len(q) |-> q[i].id]
\* how many responses precede the first one of the wrong kind
Sound(e) == LET B == {i \in 1..Len(e.got) : ~Good(e, e.got[i])}
            IN  IF B = {} THEN Len(e.got) ELSE (CHOOSE i \in B : \A j \in B : i <= j) - 1
Prefixes(q, n) == {SubSeq(q, 1, k) : k \in 0..n}
Lesser(a, b) == IF a < b THEN a ELSE b

\* the ends that an exchange cut short (refused, timed out) may have
Short(e, st) ==
  LET p == Sound(e)
  IN  {[e EXCEPT !.st = st, !.out = o] : o \in IF e.kind \in {"cmd", "one"} THEN {<<>>} ELSE Prefixes(Ids(e.got), Lesser(p, e.brk))}
      \cup (IF e.kind \in {"status", "dims"} /\ e.brk <= p
            THEN {[e EXCEPT !.st = "ok", !.out = SubSeq(Ids(e.got), 1, e.brk)]} ELSE {})
\* the ends after the final ACK
Full(e) ==
  LET p == Sound(e)
      n == Len(e.got)
  IN  IF p < n THEN Short(e, "refused")
      ELSE IF e.kind = "one" THEN
        {IF n = 0 THEN [e EXCEPT !.st = "refused"] ELSE [e EXCEPT !.st = "ok", !.out = <<e.got[1].id>>]}
      ELSE IF e.inner /\ n > 0 THEN {[e EXCEPT !.st = "iter", !.out = <<e.got[1].id>>, !.idx = 1]}
      ELSE {[e EXCEPT !.st = "ok", !.out = SubSeq(Ids(e.got), 1, Lesser(n, e.brk))]}
\* what one reply makes of the exchange that is being answered
Answer(e, f) ==
  IF e.kind = "cmd" THEN {[e EXCEPT !.st = IF f.f = "ack" THEN "ok" ELSE "refused"]}
  ELSE IF f.f = "nack" THEN Short(e, "refused")
  ELSE IF f.f = "ack" THEN Full(e)
  ELSE {[e EXCEPT !.got = Append(@, f)]}
\* what several make of it (the responses before a final reply are taken together)
Final(f) == f.f \in {"ack", "nack"}
RECURSIVE AnswerAll(_, _)
AnswerAll(E, fs) ==
  IF fs = <<>> THEN E
  ELSE LET F == {i \in 1..Len(fs) : Final(fs[i])}
           n == IF F = {} THEN Len(fs) ELSE (CHOOSE i \in F : \A j \in F : i <= j) - 1
       IN  IF n = 0 \/ \E e \in E : e.kind = "cmd" THEN AnswerAll(UNION {Answer(e, Head(fs)) : e \in E}, Tail(fs))
           ELSE AnswerAll({[e EXCEPT !.got = @ \o SubSeq(fs, 1, n)] : e \in E}, SubSeq(fs, n + 1, Len(fs)))

\* The exchange i is over: the caller goes on (with an inner command, or with the next value of its parent).
After(s, i) ==
  LET e == s.ex[i]
  IN  IF e.st = "iter" THEN [s EXCEPT !.ex = Append(@, Start("cmd", 99, FALSE, i))]
      ELSE IF e.par # 0 /\ Over(e) THEN
        LET p == s.ex[e.par]
        IN  IF p.idx = Len(p.got) THEN [s EXCEPT !.ex[e.par].st = "ok"]
            ELSE [s EXCEPT !.ex = Append([@ EXCEPT ![e.par] = [p EXCEPT !.idx = @ + 1, !.out = Append(@, p.got[p.idx + 1].id)]],
                                         Start("cmd", 99, FALSE, e.par))]
      ELSE s
\* the active exchange becomes e
Became(s, e, clock) ==
  LET t == [s EXCEPT !.ex[s.act] = e]
  IN  IF e.st = "active" THEN [t EXCEPT !.clock = clock]
      ELSE [After(t, s.act) EXCEPT !.act = 0, !.clock = clock]

\* the states after an operation, before the next exchange begins
Effects(s, o) ==
  CASE o.op = "start"  -> {[s EXCEPT !.ex = Append(@, Start(o.kind, o.brk, o.inner, 0))]}
    [] o.op = "reply"  -> {Became(s, e, 0) : e \in AnswerAll({s.ex[s.act]}, o.fs)}
    [] o.op = "elapse" -> IF s.act = 0 THEN {s}
                          ELSE IF s.clock + o.n < Limit THEN {[s EXCEPT !.clock = @ + o.n]}
                          ELSE {Became(s, e, s.clock + o.n - Limit) : e \in Short(s.ex[s.act], "timeout")}
    \* a caller gives up an exchange that the gateway does not answer any more: the client is free for the next one
    [] o.op = "abandon" -> {Became(s, [s.ex[s.act] EXCEPT !.st = "abandoned"], 0)}
    [] o.op = "cancel" -> {[s EXCEPT !.ex[o.n].st = IF @ = "wait" THEN "cancelled" ELSE @]}
\* the exchange that may be sent next: any that waits, if none is in progress
Begins(s) == IF s.act # 0 \/ Waiting(s) = {} THEN {0} ELSE Waiting(s)
Begin(s, j) == IF j = 0 THEN s
               ELSE [s EXCEPT !.act = j, !.ex[j].st = "active", !.clock = IF s.clock < Limit THEN s.clock ELSE 0]
\* the clock of an exchange that begins during "elapse" has already run; otherwise it starts at 0
Rest(s, o) == IF o.op = "elapse" THEN s ELSE IF s.act = 0 THEN [s EXCEPT !.clock = 0] ELSE s
===============================================================================
