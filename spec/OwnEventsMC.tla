----------------------------- MODULE OwnEventsMC -----------------------------
(* The event loop as a pipeline: frames arrive and wait, the loop takes them one at a
   time and starts a task for each callback, the tasks run later.  Every interleaving
   with the end of the connection, a close by the user and a close by a callback.     *)
EXTENDS OwnEvents, TLC, Json
CONSTANTS MaxFrames, Frames1, Regs, Mode
VARIABLES arrived, taken, ph, loop, ready, calls, log, st
vars == <<arrived, taken, ph, loop, ready, calls, log, st>>

Text(s) == s
\* *1*1*11##  *2*0*21##  *#*1##  *#18*51*113*7##  *#18*21*113*7##  *99*1##
F1 == <<42, 49, 42, 49, 42, 49, 49, 35, 35>>
F2 == <<42, 50, 42, 48, 42, 50, 49, 35, 35>>
F3 == <<42, 35, 42, 49, 35, 35>>
F4 == <<42, 35, 49, 56, 42, 53, 49, 42, 49, 49, 51, 42, 55, 35, 35>>
F5 == <<42, 35, 49, 56, 42, 50, 49, 42, 49, 49, 51, 42, 55, 35, 35>>
F6 == <<42, 57, 57, 42, 49, 35, 35>>
QuickFrames == {F1, F2, F3}
ThoroughFrames == {F1, F2, F3, F4, F5, F6}
R(ev, cb, kind) == [ev |-> ev, cb |-> cb, kind |-> kind, d |-> 1]
PlainRegs == <<R("light.status", 1, "plain"), R("light.status", 2, "raise"), R("automation.status", 3, "forever"), R("energy.113", 4, "plain"),
               R("light.status", 5, "arity")>>
CloseRegs == <<R("light.status", 1, "plain"), R("automation.status", 2, "close"), R("automation.status", 3, "plain"), R("energy.113", 4, "plain")>>
World == [regs |-> Regs]

Init == arrived = <<>> /\ taken = 0 /\ ph = "up" /\ loop = "none" /\ ready = <<>> /\ calls = <<>> /\ log = <<>> /\ st = 0
Arrive == /\ ph = "up" /\ Len(arrived) < MaxFrames
          /\ \E f \in Frames1 : arrived' = Append(arrived, f)
          /\ UNCHANGED <<taken, ph, loop, ready, calls, log, st>>
End1(k) == ph = "up" /\ ph' = k /\ UNCHANGED <<arrived, taken, loop, ready, calls, log, st>>
Begin == loop = "none" /\ ph # "closed" /\ loop' = "running" /\ UNCHANGED <<arrived, taken, ph, ready, calls, log, st>>
Read == /\ loop = "running" /\ ph # "closed" /\ taken < Len(arrived)
        /\ taken' = taken + 1
        /\ LET g == Group(World, arrived[taken + 1])
           IN  ready' = ready \o [i \in 1..Len(g.to) |-> [n |-> taken + 1, r |-> g.to[i]]]
        /\ UNCHANGED <<arrived, ph, loop, calls, log, st>>
Run == /\ ready # <<>>
       /\ ready' = Tail(ready)
       /\ calls' = Append(calls, [n |-> Head(ready).n, cb |-> Head(ready).r.cb])
       /\ ph' = IF Head(ready).r.kind = "close" THEN "closed" ELSE ph
       /\ UNCHANGED <<arrived, taken, loop, log, st>>
Return == /\ loop = "running"
          /\ ph = "closed" \/ (ph = "ended" /\ taken = Len(arrived))
          /\ loop' = "ok"
          /\ UNCHANGED <<arrived, taken, ph, ready, calls, log, st>>
Next == Arrive \/ End1("ended") \/ End1("closed") \/ Begin \/ Read \/ Run \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Run) /\ WF_vars(Return)

\* ---- properties ------------------------------------------------------------------
Expected(n) == LET g == Group(World, arrived[n]) IN {g.to[i].cb : i \in 1..Len(g.to)}
Started == calls \o [i \in 1..Len(ready) |-> [n |-> ready[i].n, cb |-> ready[i].r.cb]]
Once == \A i, j \in 1..Len(Started) : i # j => Started[i] # Started[j]
InOrder == \A i, j \in 1..Len(calls) : i < j => calls[i].n <= calls[j].n
Right == \A i \in 1..Len(calls) : calls[i].cb \in Expected(calls[i].n)
NeverArity == \A i \in 1..Len(calls) : \A k \in 1..Len(Regs) : Regs[k].kind = "arity" => calls[i].cb # Regs[k].cb
EndsOnly == loop = "ok" => ph # "up"
Complete == (loop = "ok" /\ ph = "ended") => \A n \in 1..Len(arrived) : \A cb \in Expected(n) : [n |-> n, cb |-> cb] \in {Started[i] : i \in 1..Len(Started)}
KeepsUp == (loop = "running" /\ ph = "up" /\ ~ENABLED Read /\ ~ENABLED Run)
             => Len(calls) = FoldLeft(LAMBDA a, n : a + Cardinality(Expected(n)), 0, [n \in 1..Len(arrived) |-> n])
Ends == (ph # "up") ~> (loop # "running")
AllHeard == \A n \in 1..MaxFrames : (loop = "running" /\ n <= Len(arrived)) ~> (ph # "up" \/ taken >= n)

\* ---- random histories for the driver --------------------------------------------------
\* st: two clients and the number of registrations
GInit == /\ arrived = <<>> /\ taken = 0 /\ ph = "up" /\ loop = "none" /\ ready = <<>> /\ calls = <<>> /\ log = <<>>
         /\ st = [c |-> [i \in 1..2 |-> [ph |-> "new", run |-> FALSE]], n |-> 0, closer |-> FALSE]
O(op, c, n, kind, what, end) == [op |-> op, c |-> c, n |-> n, kind |-> kind, what |-> what, end |-> end]
Kinds == CASE Mode = "C21" -> {"plain", "slow"}
           [] Mode = "C22" -> {"plain", "slow", "raise", "late", "cancel", "invalid", "forever", "sync", "none", "arity"}
           [] Mode = "C23" -> {"plain", "slow", "raise", "forever"}
           [] OTHER -> {"plain"}
EndKinds == IF Mode = "C23" THEN {"none", "none", "eof", "half", "bad", "reset"} ELSE {"none"}
Whats == IF Mode = "C21" THEN {"event", "any"} ELSE {"event", "event2", "junk", "any"}
Burst == {<<a>> : a \in Whats} \cup {<<a, b>> : a, b \in Whats} \cup {<<a, b, c, d>> : a, b, c, d \in Whats}
Ready(c) == st.c[c].ph = "up" /\ ~st.c[c].run
Options ==
  {O("start", c, 0, "", <<>>, "") : c \in {c \in 1..2 : st.c[c].ph \in {"new", "closed"} /\ ~st.c[c].run}}
  \cup {O("loop", c, b, "", <<>>, "") : c \in {c \in 1..2 : Ready(c)}, b \in 1..3}
  \cup (IF st.n < 8 THEN {O("reg", 1, n, k, <<>>, "") : n \in 0..3, k \in Kinds} ELSE {})
  \cup {O("wait", 1, n, "", <<>>, "") : n \in {1, 3, 12, 60, 1000}}
  \cup {O("close", c, 0, "", <<>>, "") : c \in {c \in 1..2 : Mode = "C23" /\ st.c[c].ph = "up"}}
  \cup {O("reopen", c, 12, "", <<>>, "") : c \in {c \in 1..2 : Mode = "C23" /\ st.c[c].ph # "new"}}
Recvs == LET up == {c \in 1..2 : st.c[c].ph = "up"}
         IN  IF up = {} THEN {} ELSE {O("recv", RandomElement(up), 0, "", RandomElement(Burst), IF RandomElement(1..4) = 1 THEN RandomElement(EndKinds) ELSE "none")}
GAfter(o) ==
  CASE o.op = "start" -> [st EXCEPT !.c[o.c].ph = "up"]
    [] o.op = "loop" -> [st EXCEPT !.c[o.c].run = TRUE]
    [] o.op = "reopen" -> [st EXCEPT !.c[o.c] = [ph |-> "up", run |-> FALSE]]
    [] o.op = "reg" -> [st EXCEPT !.n = @ + 1]
    [] o.op = "close" -> [st EXCEPT !.c[o.c] = [ph |-> "closed", run |-> FALSE]]
    [] o.op = "recv" /\ o.end # "none" -> [st EXCEPT !.c[o.c] = [ph |-> "ended", run |-> FALSE]]
    [] OTHER -> st
Pause(o) == IF o.op = "close" \/ (o.op = "recv" /\ o.end # "none") THEN <<O("wait", 1, 12, "", <<>>, "")>> ELSE <<>>
\* after the end of a connection the client is closed before it is started again
Tidy(o) == IF o.op = "recv" /\ o.end # "none" THEN <<O("close", o.c, 0, "", <<>>, "")>> ELSE <<>>
Tidied(o) == LET t == GAfter(o) IN IF o.op = "recv" /\ o.end # "none" THEN [t EXCEPT !.c[o.c].ph = "closed"] ELSE t
GNext == \/ /\ Len(log) < MaxFrames
            /\ \E o \in {LET r == Recvs IN IF r # {} /\ RandomElement(1..2) = 1 THEN RandomElement(r) ELSE RandomElement(Options)} :
                 log' = log \o <<o>> \o Pause(o) \o Tidy(o) /\ st' = Tidied(o)
            /\ UNCHANGED <<arrived, taken, ph, loop, ready, calls>>
         \/ /\ Len(log) >= MaxFrames /\ taken = 0
            /\ taken' = 1
            /\ PrintT(ToJson([k |-> "script", ops |-> log])) = TRUE
            /\ UNCHANGED <<arrived, ph, loop, ready, calls, log, st>>
GenSpec == GInit /\ [][GNext]_vars
===============================================================================
