------------------------------- MODULE OwnFlowMC -------------------------------
(* Every schedule of sends, pauses, resumptions, waits, cancellations and a loss,
   and every choice of the moment a blocked send is written.                       *)
EXTENDS OwnFlow, TLC, Json
CONSTANTS Depth, MaxSends
VARIABLES s, wire, log, n, held
vars == <<s, wire, log, n, held>>
Init == s = Quiet /\ wire = <<>> /\ log = <<>> /\ n = 0 /\ held = FALSE

O(op, k) == [op |-> op, n |-> k]
Choices(t) ==
  (IF Len(t.sends) < MaxSends THEN {O("send", 0)} ELSE {})
  \cup (IF t.paused THEN {O("resume", 0)} ELSE {O("pause", 0)})
  \cup (IF t.arm THEN {} ELSE {O("arm", 0)})
  \cup {O("elapse", k) : k \in {40, 110, 300, 1100}}
  \cup {O("cancel", i) : i \in {i \in 1..Len(t.sends) : t.sends[i].st = "pending" /\ ~t.sends[i].w}}
  \cup {O("lost", 0)}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Do(o, W) == /\ s' = LET t == Write(s, o, W)
                    IN  [t EXCEPT !.sends = [i \in 1..Len(@) |->
                           IF i \in W THEN [@[i] EXCEPT !.st = "done"]
                           ELSE IF i \in Finished(s, o) /\ @[i].st = "pending" THEN [@[i] EXCEPT !.st = "failed"] ELSE @[i]]]
            /\ wire' = wire \o AsSeq(W)
            /\ held' = (s.paused /\ o.op # "resume" /\ o.op # "lost" /\ W # {})
            /\ n' = n + 1
Next == /\ n < Depth /\ (~s.lost \/ s.calm < Soon)
        /\ \E o \in (IF s.lost THEN {O("elapse", 1100)} ELSE Choices(s)) :
             \E W \in SUBSET May(s, o) : Allowed(s, o, W) /\ Do(o, W)
        /\ log' = log
Spec == Init /\ [][Next]_vars

Weights == <<"send", "send", "send", "pause", "resume", "elapse", "elapse", "resume", "pause", "cancel", "send", "lost", "arm">>
RNext == \/ /\ n < Depth /\ ~s.lost
            /\ \E c \in {Weights[RandomElement(1..Len(Weights))]} :
                 LET of == {o \in Choices(s) : o.op = c}
                     all == {o \in Choices(s) : o.op # "lost"}
                 IN  \E o \in {IF of = {} \/ (c = "lost" /\ n < 10) THEN RandomElement(all) ELSE RandomElement(of)} :
                       \E W \in {RandomElement({W \in SUBSET May(s, o) : Allowed(s, o, W)})} :
                         Do(o, W) /\ log' = Append(log, o)
         \/ /\ n = Depth \/ s.lost
            /\ n <= Depth
            /\ n' = Depth + 1
            /\ PrintT(ToJson([k |-> "script", ops |-> log])) = TRUE
            /\ UNCHANGED <<s, wire, log, held>>
GenSpec == Init /\ [][RNext]_vars

\* ---- properties ------------------------------------------------------------------
Held == ~held
Once == \A i, j \in 1..Len(wire) : i # j => wire[i] # wire[j]
DoneWritten == \A i \in 1..Len(s.sends) : s.sends[i].st = "done" => \E j \in 1..Len(wire) : wire[j] = i
CancelledNot == \A i \in 1..Len(s.sends) : s.sends[i].st = "cancelled" => ~(\E j \in 1..Len(wire) : wire[j] = i)
Prompt == ~s.paused /\ s.calm >= Soon => \A i \in 1..Len(s.sends) : s.sends[i].st # "pending"
Free == ~s.paused /\ Len(s.sends) > 0 /\ s.calm >= Soon => Open(s) = {}
===============================================================================
