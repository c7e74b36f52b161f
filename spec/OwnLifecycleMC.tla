---------------------------- MODULE OwnLifecycleMC ----------------------------
(* Two clients, every sequence of operations; the wire of each client is kept and
   checked against the session it was sent in.                                    *)
EXTENDS OwnLifecycle, TLC, Json
CONSTANTS Depth, Printing, Types, MaxInbox
VARIABLES ks, wire, got, log, n
vars == <<ks, wire, got, log, n>>

Init == /\ \E a, b \in Types : ks = <<NewClient(a), NewClient(b)>>
        /\ wire = <<<<>>, <<>>>>
        /\ got = <<<<>>, <<>>>>
        /\ log = <<>>
        /\ n = 0

Do(c, op) ==
  LET k == ks[c]
      w == Want(k, op)
  IN  /\ Enabled(k, op)
      /\ Len(k.inbox) < MaxInbox \/ op # "recv"
      /\ ks' = [ks EXCEPT ![c] = After(k, op, n + 1)]
      /\ wire' = IF w.wire = "none" THEN wire
                 ELSE [wire EXCEPT ![c] = Append(@, [op |-> op, ph |-> k.ph, type |-> k.type, conn |-> ks'[c].conns])]
      /\ got' = IF w.res = "message" THEN [got EXCEPT ![c] = Append(@, [m |-> Head(k.inbox), conn |-> k.conns])] ELSE got
      /\ log' = IF Printing \/ op = "recv" THEN Append(log, [c |-> c, op |-> op, conn |-> k.conns]) ELSE log
      /\ n' = n + 1
Next == /\ n < Depth
        /\ \E c \in 1..2 : \E op \in Ops : Do(c, op)
Spec == Init /\ [][Next]_vars

\* ---- generation: random behaviours, biased towards clients in session ----------------
Rare == {"close", "refuse", "nack", "stall", "drop", "readclose", "burst", "reopen"}
Choice(k) == LET ops == {op \in Ops : Enabled(k, op) /\ (Len(k.inbox) < MaxInbox \/ op # "recv")}
                 common == ops \ Rare
             IN  IF common = {} \/ RandomElement(1..4) = 1 THEN RandomElement(ops)
                 ELSE IF "start" \in common /\ RandomElement(1..2) = 1 THEN "start" ELSE RandomElement(common)
RNext == /\ n < Depth
         /\ \E c \in {RandomElement(1..2)} : \E op \in {Choice(ks[c])} : Do(c, op)
Done == /\ n = Depth
        /\ n' = Depth + 1
        /\ PrintT(ToJson([k |-> "script", types |-> <<ks[1].type, ks[2].type>>, ops |-> log])) = TRUE
        /\ UNCHANGED <<ks, wire, got, log>>
GenSpec == Init /\ [][RNext \/ Done]_vars

\* ---- properties -------------------------------------------------------------------------
\* an event session only carries its greeting and forced frames
EventQuiet == \A c \in 1..2 : \A i \in 1..Len(wire[c]) :
                 LET w == wire[c][i] IN w.type = "event" => w.op \in {"start", "nack", "stall", "reopen", "force"}
\* a client that is not in session sends nothing
IdleQuiet == \A c \in 1..2 : \A i \in 1..Len(wire[c]) :
                 LET w == wire[c][i] IN w.ph = "idle" => w.op \in {"start", "nack", "stall", "reopen"}
\* messages never cross sessions: what is read was received in the same one
\* (log keeps the arrivals, in order)
NoSharing == \A c \in 1..2 : \A i \in 1..Len(got[c]) :
                \E j \in 1..Len(log) : log[j].op = "recv" /\ log[j].c = c /\ log[j].conn = got[c][i].conn
\* closing always gives a client that can be started
Restartable == \A c \in 1..2 : ks[c].ph = "idle" => Enabled(ks[c], "start")
\* a step touches one client only
Independent == [][\/ ks'[1] = ks[1] /\ wire'[1] = wire[1] /\ got'[1] = got[1]
                  \/ ks'[2] = ks[2] /\ wire'[2] = wire[2] /\ got'[2] = got[2]]_vars
CloseAnytime == \A c \in 1..2 : Enabled(ks[c], "close")
===============================================================================
