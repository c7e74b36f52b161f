----------------------------- MODULE OwnExchangeMC -----------------------------
(* Every interleaving of callers, replies, silences and cancellations of waiting callers. *)
EXTENDS OwnExchange, TLC, Json
CONSTANTS Depth, MaxEx, MaxGot, Concurrent
VARIABLES s, sent, log, n
vars == <<s, sent, log, n>>
Init == s = Idle /\ sent = <<>> /\ log = <<>> /\ n = 0

O(op, kind, brk, inner, k, fs) == [op |-> op, kind |-> kind, brk |-> brk, inner |-> inner, n |-> k, fs |-> fs]
Id(i, k) == 100 * i + k
F(f, i, k) == [f |-> f, id |-> Id(i, k)]
\* the replies that a gateway may give next to the active exchange
Frames(t) ==
  LET e == t.ex[t.act]
      k == Len(e.got) + 1
      right == IF e.kind = "status" THEN "normal" ELSE "dim"
      wrong == IF e.kind = "status" THEN "dim" ELSE "normal"
  IN  IF e.kind = "cmd" THEN {<<F("ack", t.act, 0)>>, <<F("nack", t.act, 0)>>, <<F("other", t.act, 0)>>}
      ELSE {<<F("ack", t.act, 0)>>}
           \cup (IF ~e.inner \/ k = 1 THEN {<<F("nack", t.act, 0)>>} ELSE {})
           \cup (IF k <= MaxGot THEN {<<F(right, t.act, k)>>, <<F(right, t.act, k), F("ack", t.act, 0)>>} ELSE {})
           \cup (IF k <= MaxGot /\ ~e.inner THEN {<<F(wrong, t.act, k)>>, <<F("other", t.act, k)>>} ELSE {})
Choices(t) ==
  (IF Len(t.ex) < MaxEx /\ (Concurrent \/ (t.act = 0 /\ Waiting(t) = {}))
   THEN {O("start", "cmd", 99, FALSE, 0, <<>>), O("start", "one", 99, FALSE, 0, <<>>)}
        \cup {O("start", k, b, FALSE, 0, <<>>) : k \in {"status", "dims"}, b \in {99, 1, 2}}
        \cup {O("start", k, 99, TRUE, 0, <<>>) : k \in {"status", "dims"}}
   ELSE {})
  \cup (IF t.act # 0 THEN {O("reply", "", 0, FALSE, 0, fs) : fs \in Frames(t)} ELSE {})
  \cup (IF t.act # 0 THEN {O("elapse", "", 0, FALSE, k, <<>>) : k \in {100, 2450, 4900}} ELSE {})
  \cup {O("cancel", "", 0, FALSE, i, <<>>) : i \in {i \in Waiting(t) : t.ex[i].par = 0}}
Abandons(t) == IF t.act # 0 /\ t.ex[t.act].par = 0 THEN {O("abandon", "", 0, FALSE, t.act, <<>>)} ELSE {}
Do(o, t, j) == /\ s' = Begin(Rest(t, o), j)
               /\ sent' = IF j = 0 THEN sent ELSE Append(sent, j)
               /\ n' = n + 1
Next == /\ n < Depth
        /\ \E o \in Choices(s) \cup Abandons(s) : \E t \in Effects(s, o) : \E j \in Begins(t) : Do(o, t, j)
        /\ log' = log
Spec == Init /\ [][Next]_vars

Weights == <<"start", "start", "start", "reply", "reply", "reply", "reply", "elapse", "cancel">>
RNext == \/ /\ n < Depth
            /\ \E c \in {Weights[RandomElement(1..Len(Weights))]} :
                 LET all == Choices(s)
                     of == {o \in all : o.op = c}
                 IN  \E o \in {IF of # {} THEN RandomElement(of) ELSE IF all # {} THEN RandomElement(all) ELSE O("none", "", 0, FALSE, 0, <<>>)} :
                       IF o.op = "none" THEN n' = Depth /\ UNCHANGED <<s, sent, log>>
                       ELSE \E t \in {CHOOSE t \in Effects(s, o) : TRUE} : \E j \in {CHOOSE j \in Begins(t) : \A k \in Begins(t) : j <= k} :
                              Do(o, t, j) /\ log' = Append(log, o)
         \/ /\ n = Depth /\ n' = n + 1
            /\ PrintT(ToJson([k |-> "script", ops |-> log])) = TRUE
            /\ UNCHANGED <<s, sent, log>>
GenSpec == Init /\ [][RNext]_vars

\* ---- properties ------------------------------------------------------------------
\* each frame is sent once, and only exchanges that were sent end in something else than cancellation
SentOnce == \A i, j \in 1..Len(sent) : i # j => sent[i] # sent[j]
EndedSent == \A i \in 1..Len(s.ex) : s.ex[i].st \in {"active", "iter", "ok", "refused", "timeout", "abandoned"} => \E j \in 1..Len(sent) : sent[j] = i
NeverSent == \A i \in 1..Len(s.ex) : s.ex[i].st \in {"wait", "cancelled"} => ~(\E j \in 1..Len(sent) : sent[j] = i)
\* at most one is unanswered, and nobody waits while the client is idle
OneAtATime == Cardinality({i \in 1..Len(s.ex) : s.ex[i].st = "active"}) = (IF s.act = 0 THEN 0 ELSE 1)
NoIdle == s.act = 0 => Waiting(s) = {}
\* each caller gets its own values, in order, each once, and all of them unless it stopped
OwnValues == \A i \in 1..Len(s.ex) : \A k \in 1..Len(s.ex[i].out) : s.ex[i].out[k] = Id(i, k)
AllValues == \A i \in 1..Len(s.ex) :
               s.ex[i].st = "ok" /\ s.ex[i].kind \in {"status", "dims"} /\ s.ex[i].brk = 99 => Len(s.ex[i].out) = Len(s.ex[i].got)
Right == \A i \in 1..Len(s.ex) : s.ex[i].st = "ok" /\ s.ex[i].brk = 99 => \A k \in 1..Len(s.ex[i].got) : Good(s.ex[i], s.ex[i].got[k])
InTime == s.act # 0 => s.clock < Limit
===============================================================================
