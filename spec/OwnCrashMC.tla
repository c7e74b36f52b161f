------------------------------- MODULE OwnCrashMC -------------------------------
(* Byte by byte: a connection that can be lost after each of them, an exchange that
   takes the messages, gives up when none can come any more, and a client that is
   started again.  What it ends with is what OwnCrash says.                         *)
EXTENDS OwnCrash, FiniteSets, TLC
CONSTANTS Units, Values, Connections
VARIABLES kind, plan, sent, part, inbox, ex, up, conn
vars == <<kind, plan, sent, part, inbox, ex, up, conn>>

F(f, id, n) == [f |-> f, id |-> id, n |-> n]
Kinds == {"cmd", "many", "one"}
Vals(c, k) == [i \in 1..k |-> F("val", 10 * c + i, Units)]
Plans(k, c) == IF k = "cmd" THEN {<<F(x, 0, Units)>> : x \in {"ack", "nack", "other"}}
               ELSE {Vals(c, m) \o <<F(x, 0, Units)>> : m \in 0..Values, x \in {"ack", "nack"}}
RECURSIVE Bytes(_)
Bytes(fs) == IF fs = <<>> THEN 0 ELSE Head(fs).n + Bytes(Tail(fs))

Fresh(c) == /\ kind' \in Kinds /\ plan' \in Plans(kind', c)
            /\ sent' = 0 /\ part' = 0 /\ inbox' = <<>> /\ up' = TRUE /\ conn' = c
            /\ ex' = [st |-> "active", got |-> <<>>, out |-> <<>>]
Init == /\ kind \in Kinds /\ plan \in Plans(kind, 1)
        /\ sent = 0 /\ part = 0 /\ inbox = <<>> /\ up = TRUE /\ conn = 1
        /\ ex = [st |-> "active", got |-> <<>>, out |-> <<>>]

Byte == /\ up /\ sent < Bytes(plan)
        /\ sent' = sent + 1
        /\ LET k == Whole(plan, sent, 0)
           IN  IF part + 1 = plan[k + 1].n THEN part' = 0 /\ inbox' = Append(inbox, [c |-> conn, m |-> plan[k + 1]])
               ELSE part' = part + 1 /\ inbox' = inbox
        /\ UNCHANGED <<kind, plan, ex, up, conn>>
Lose == up /\ up' = FALSE /\ UNCHANGED <<kind, plan, sent, part, inbox, ex, conn>>

End(st, out) == [ex EXCEPT !.st = st, !.out = out]
Take == /\ ex.st = "active" /\ inbox # <<>>
        /\ inbox' = Tail(inbox)
        /\ LET m == Head(inbox).m
           IN  ex' = IF kind = "cmd" THEN End(IF m.f = "ack" THEN "ok" ELSE "refused", <<>>)
                     ELSE IF m.f = "nack" THEN End("refused", ex.got)
                     ELSE IF m.f # "ack" THEN [ex EXCEPT !.got = Append(@, m.id)]
                     ELSE IF kind = "many" THEN End("ok", ex.got)
                     ELSE IF ex.got = <<>> THEN End("refused", <<>>) ELSE End("ok", <<ex.got[1]>>)
        /\ UNCHANGED <<kind, plan, sent, part, up, conn>>
\* nothing can come any more
Expire == /\ ex.st = "active" /\ inbox = <<>> /\ ~up
          /\ ex' = End("lost", ex.got)
          /\ UNCHANGED <<kind, plan, sent, part, inbox, up, conn>>
Restart == ~up /\ ex.st # "active" /\ conn < Connections /\ Fresh(conn + 1)
Next == Byte \/ Lose \/ Take \/ Expire \/ Restart
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Expire) /\ WF_vars(Lose)

Agrees == ex.st # "active" => [st |-> ex.st, out |-> ex.out] = Outcome(kind, Arrived(plan, sent))
\* a result stands for a whole answer
Complete == ex.st = "ok" => sent = Bytes(plan)
OwnFrames == \A i \in 1..Len(inbox) : inbox[i].c = conn
OwnValues == \A i \in 1..Len(ex.got) : ex.got[i] \div 10 = conn
AllEnd == <>[](ex.st # "active")
===============================================================================
