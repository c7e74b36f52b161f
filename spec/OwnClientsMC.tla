------------------------------ MODULE OwnClientsMC ------------------------------
(* Every interleaving of the exchanges of several clients, answered or not.             *)
EXTENDS OwnClients, TLC, Json
CONSTANTS N, Depth, MaxEx, MaxGot, Kinds
VARIABLES w, sent, n, log, last
vars == <<w, sent, n, log, last>>

Id(c, i, k) == 1000 * c + 100 * i + k
O(c, op, kind, brk, k, fs) == [c |-> c, op |-> op, kind |-> kind, brk |-> brk, inner |-> FALSE, n |-> k, fs |-> fs]
F(f, id) == [f |-> f, id |-> id]
Frames(c) ==
  LET t == w[c]
      e == t.ex[t.act]
      k == Len(e.got) + 1
      right == F(IF e.kind = "status" THEN "normal" ELSE "dim", Id(c, t.act, k))
      wrong == F(IF e.kind = "status" THEN "dim" ELSE "normal", Id(c, t.act, k))
  IN  IF e.kind = "cmd" THEN {<<F("ack", 0)>>, <<F("nack", 0)>>}
      ELSE {<<F("ack", 0)>>, <<F("nack", 0)>>}
           \cup (IF k <= MaxGot THEN {<<right>>, <<right, F("ack", 0)>>, <<wrong>>} ELSE {})
Choices(c) ==
  (IF Len(w[c].ex) < MaxEx THEN {O(c, "start", k, 99, 0, <<>>) : k \in Kinds} ELSE {})
  \cup (IF w[c].act # 0 THEN {O(c, "reply", "", 0, 0, fs) : fs \in Frames(c)} ELSE {})
  \cup {O(c, "cancel", "", 0, i, <<>>) : i \in Waiting(w[c])}
Everybody == IF \E c \in 1..N : w[c].act # 0 THEN {O(1, "elapse", "", 0, k, <<>>) : k \in {2450, 4900}} ELSE {}
Noise == {O(1, "noise", "", 0, k, <<>>) : k \in 0..12}

Init == w = Alone(N) /\ sent = [c \in 1..N |-> <<>>] /\ n = 0 /\ log = <<>> /\ last = <<0, "", Alone(N)>>
\* pick: for each client touched, one of its outcomes
Do(o, pick) ==
  LET T == Touched(w, o.c, o)
  IN  /\ w' = [c \in 1..N |-> IF c \in T THEN pick[c].s ELSE w[c]]
      /\ sent' = [c \in 1..N |-> IF c \in T /\ pick[c].sent # 0 THEN Append(sent[c], pick[c].sent) ELSE sent[c]]
      /\ n' = n + 1
Next == /\ n < Depth
        /\ log' = log
        /\ \/ \E c \in 1..N : \E o \in Choices(c) : \E x \in Outcomes(w[c], o) : Do(o, [d \in {c} |-> x]) /\ last' = <<c, o.op, w>>
           \/ \E o \in Everybody : \E pick \in {p \in [1..N -> UNION {Outcomes(w[c], o) : c \in 1..N}] : \A c \in 1..N : p[c] \in Outcomes(w[c], o)} :
                Do(o, pick) /\ last' = <<0, "elapse", w>>
Spec == Init /\ [][Next]_vars

Weights == <<"start", "start", "start", "reply", "reply", "reply", "reply", "elapse", "cancel", "noise", "noise">>
RNext == \/ /\ n < Depth
            /\ \E kind \in {Weights[RandomElement(1..Len(Weights))]} :
                 LET all == UNION {Choices(c) : c \in 1..N} \cup Everybody \cup Noise
                     of == {o \in all : o.op = kind}
                 IN  \E o \in {IF of # {} THEN RandomElement(of) ELSE RandomElement(all)} :
                       /\ Do(o, [c \in Touched(w, o.c, o) |-> CHOOSE x \in Outcomes(w[c], o) : \A y \in Outcomes(w[c], o) : x.sent <= y.sent])
                       /\ log' = Append(log, o) /\ last' = last
         \/ /\ n = Depth /\ n' = n + 1
            /\ PrintT(ToJson([k |-> "script", ops |-> log])) = TRUE
            /\ UNCHANGED <<w, sent, log, last>>
GenSpec == Init /\ [][RNext]_vars

\* ---- properties -----------------------------------------------------------------------
\* what happens to one client leaves the others as they were
Independent == last[1] # 0 => \A c \in 1..N : c # last[1] => w[c] = last[3][c]
\* nobody waits for another client: an idle client has nothing left to send
NoWait == \A c \in 1..N : w[c].act = 0 => Waiting(w[c]) = {}
OneEach == \A c \in 1..N : Cardinality({i \in 1..Len(w[c].ex) : w[c].ex[i].st = "active"}) = (IF w[c].act = 0 THEN 0 ELSE 1)
\* two clients can be busy at the same time, so this is not mutual exclusion between them
OwnValues == \A c \in 1..N : \A i \in 1..Len(w[c].ex) : \A k \in 1..Len(w[c].ex[i].out) : w[c].ex[i].out[k] = Id(c, i, k)
SentOnce == \A c \in 1..N : \A i, j \in 1..Len(sent[c]) : i # j => sent[c][i] # sent[c][j]
InTime == \A c \in 1..N : w[c].act # 0 => w[c].clock < Limit
===============================================================================
