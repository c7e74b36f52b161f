---------------------------- MODULE OwnExchangeTrace ----------------------------
(* Exchanges of the real items judged by OwnExchange: after each operation, which
   frames were sent (by exchange; 0: an unknown frame) and how far each caller is.   *)
EXTENDS OwnExchange, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}
IsPrefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))

\* a caller as observed (b) against its exchange in the specification (e)
Matches(e, b) == IF Over(e) THEN b.st = e.st /\ b.out = e.out
                 ELSE b.st = "pending" /\ (IF e.st = "active" THEN IsPrefix(b.out, Ids(e.got)) ELSE b.out = e.out)
Fits(t, b) == Len(t.ex) = Len(b.res) /\ \A i \in 1..Len(t.ex) : Matches(t.ex[i], b.res[i])

\* sent: what the operation put on the wire
Steps(s, o, b) == UNION {{Begin(Rest(t, o), j) : j \in {j \in Begins(t) : b.sent = (IF j = 0 THEN <<>> ELSE <<j>>)}} : t \in Effects(s, o)}

Why(s, o, b) ==
  LET T == {Begin(Rest(t, o), j) : t \in Effects(s, o), j \in {0}}
      t == CHOOSE t \in T : TRUE
      n == Cardinality(Begins(CHOOSE x \in Effects(s, o) : TRUE) \ {0})
  IN  IF Steps(s, o, b) = {} THEN
        {IF Len(b.sent) > (IF n = 0 THEN 0 ELSE 1) THEN "sent too much" ELSE IF b.sent = <<>> THEN "not sent" ELSE "sent the wrong frame"}
      ELSE IF Len(t.ex) # Len(b.res) THEN {"callers"}
      ELSE LET bad == {i \in 1..Len(t.ex) : \A u \in T : ~Matches(u.ex[i], b.res[i])}
               kind(e, c) == IF c.st \notin {"pending", "ok", "refused", "timeout", "cancelled"} THEN "unexpected error"
                             ELSE IF ~Over(e) /\ c.st # "pending" THEN "completed.early"
                             ELSE IF Over(e) /\ c.st = "pending" THEN "not completed"
                             ELSE IF Over(e) /\ c.st # e.st THEN "wrong result"
                             ELSE "wrong values"
           IN  IF bad = {} THEN {"inconsistent"} ELSE {kind(t.ex[i], b.res[i]) : i \in bad}

RECURSIVE Walk(_, _, _)
Walk(S, r, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE LET o == r.ops[i]
           b == r.obs[i]
           N == {t \in UNION {Steps(s, o, b) : s \in S} : Fits(t, b)}
       IN  IF N = {} THEN Why(CHOOSE s \in S : TRUE, o, b) ELSE Walk(N, r, i + 1)
\* a gateway that goes away: the caller is told, in time
DropBad(r) == If(r.st \notin {"ok", "pending"}, "not told that the connection is gone") \cup If(r.out = <<>>, "invented values")
\* a caller gives up its exchange, and the gateway stays silent until all the others have given up:
\* each of them was sent once, and the client works again afterwards
AbandonBad(r) ==
  If(r.st = "cancelled", "wrong result")
  \cup If(\A i \in 1..Len(r.others) : r.others[i].sent = 1, "not sent")
  \cup If(\A i \in 1..Len(r.others) : r.others[i].st = "timeout" /\ r.others[i].out = <<>>, "wrong result")
  \cup If(r.after.sent = 1, "not sent") \cup If(r.after.st = "ok", "wrong result")
\* the client is closed and started again while exchanges are in progress: those that were told end, with their
\* own answer or an error; on the new connection one frame at a time is unanswered, and whoever comes later is served
ReopenedBad(r) ==
  If(r.most <= 1, "sent too much")
  \cup If(\A i \in 1..Len(r.ex) : r.ex[i].sent <= 1, "sent too much")
  \cup If(\A i \in 1..Len(r.ex) : r.ex[i].st # "pending", "not completed")
  \cup If(\A i \in 1..Len(r.ex) : r.ex[i].st = "ok" => (r.ex[i].out = r.ex[i].own /\ r.ex[i].sent = 1), "wrong values")
  \cup If(\A i \in 1..Len(r.ex) : r.ex[i].new => (r.ex[i].sent = 1 /\ r.ex[i].st = "ok"), "wrong result")
ExchangeClauses(r) == IF r.k = "reopened" THEN ReopenedBad(r) ELSE IF r.k = "drop" THEN DropBad(r) ELSE IF r.k = "abandon" THEN AbandonBad(r) ELSE Walk({Idle}, r, 1)
===============================================================================
