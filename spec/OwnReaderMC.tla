----------------------------- MODULE OwnReaderMC -----------------------------
(* Every interleaving of arrivals, reads, timeouts and cancellations within the
   bounds, and random longer ones for replay.                                     *)
EXTENDS OwnReader, TLC, Json
CONSTANTS Depth, MaxReads, MaxMsgs
VARIABLES s, arrived, log, n, done
vars == <<s, arrived, log, n, done>>

Init == s = Begin /\ arrived = <<>> /\ log = <<>> /\ n = 0 /\ done = <<>>

Op(op, k, ms) == [op |-> op, n |-> k, ms |-> ms]
Batch(k) == [i \in 1..k |-> <<Len(arrived) + i>>]
Limits == {-1, 0, 1000, 2000, 5000}
NextDue(t) == CHOOSE d \in {t.waiting[i].dl - t.now : i \in 1..Len(t.waiting)} :
                /\ d > 0 /\ \A i \in 1..Len(t.waiting) : t.waiting[i].dl = -1 \/ t.waiting[i].dl - t.now >= d
HasDue(t) == \E i \in 1..Len(t.waiting) : t.waiting[i].dl # -1
Choices(t) ==
  {Op("arrive", 0, Batch(k)) : k \in {k \in 1..2 : Len(arrived) + k <= MaxMsgs}}
  \cup {Op("read", l, <<>>) : l \in {l \in Limits : Len(t.res) < MaxReads}}
  \cup {Op("elapse", d, <<>>) : d \in {300, 990, 2100, 4000}}
  \cup {Op("cancel", t.waiting[i].id, <<>>) : i \in 1..Len(t.waiting)}
  \cup {Op("racecancel", t.waiting[i].id, Batch(1)) : i \in {i \in 1..Len(t.waiting) : Len(arrived) < MaxMsgs}}
  \cup {Op("readcancel", l, <<>>) : l \in {l \in {-1, 5000} : Len(t.res) < MaxReads}}
  \cup {Op("racetimeout", NextDue(t), Batch(1)) : x \in {x \in {1} : HasDue(t) /\ Len(arrived) < MaxMsgs}}

Do(o) == /\ s' \in Next1(s, o)
         /\ arrived' = arrived \o o.ms
         /\ n' = n + 1
         \* the messages in the order in which they left
         /\ done' = done \o SelectSeq([i \in 1..Len(s'.res) |->
                                        IF s'.res[i].s = "ok" /\ (i > Len(s.res) \/ s.res[i].s # "ok") THEN s'.res[i].m ELSE <<>>],
                                      LAMBDA m : m # <<>>)
Next == n < Depth /\ \E o \in Choices(s) : Do(o) /\ log' = log
Spec == Init /\ [][Next]_vars

Weights == <<"arrive", "arrive", "read", "read", "read", "elapse", "cancel", "racecancel", "racetimeout", "readcancel">>
RNext == \/ /\ n < Depth
            /\ \E c \in {Weights[RandomElement(1..Len(Weights))]} :
               LET all == Choices(s)
                   of == {o \in all : o.op = c}
               IN  \E o \in {IF of = {} THEN RandomElement(all) ELSE RandomElement(of)} :
                     \* one branch of a race is enough to go on: the script is what matters
                     /\ s' = CHOOSE t \in Next1(s, o) : TRUE
                     /\ arrived' = arrived \o o.ms /\ n' = n + 1 /\ log' = Append(log, o) /\ done' = done
         \/ /\ n = Depth /\ n' = n + 1
            /\ PrintT(ToJson([k |-> "script", ops |-> log])) = TRUE
            /\ UNCHANGED <<s, arrived, log, done>>
GenSpec == Init /\ [][RNext]_vars

\* ---- properties ------------------------------------------------------------------
Delivered == {i \in 1..Len(s.res) : s.res[i].s = "ok"}
\* nothing lost, nothing twice
Once == /\ Len(done) = Cardinality(Delivered)
        /\ {done[i] : i \in 1..Len(done)} \cup {s.inbox[i] : i \in 1..Len(s.inbox)} = {arrived[i] : i \in 1..Len(arrived)}
        /\ Len(done) + Len(s.inbox) = Len(arrived)
\* reads that follow one another get the messages in order of arrival
InOrder == \A i, j \in 1..Len(s.res) :
             i < j /\ s.res[i].s = "ok" /\ s.res[j].s = "ok" => s.res[i].m[1] < s.res[j].m[1]
\* nobody waits while there is a message, nor past its limit
NoIdleWait == s.inbox # <<>> => s.waiting = <<>>
OnTime == \A i \in 1..Len(s.waiting) : s.waiting[i].dl = -1 \/ s.waiting[i].dl > s.now
Settled == [][\A i \in 1..Len(s.res) : s.res[i].s # "pending" => s'.res[i] = s.res[i]]_vars
===============================================================================
