------------------------------- MODULE OwnClients -------------------------------
(* Several clients in one process (C27): each has its own connection and its own gateway,
   and lives as if it were alone (OwnExchange).  Only time is common to all.
   Anchored in pyown/client/base.py (one lock, protocol and queue per client),
   pyown/client/client.py (one set of items per client), pyown/protocol/protocol.py.   *)
EXTENDS OwnExchange

Alone(n) == [c \in 1..n |-> Idle]
\* the states of one client after an operation, with the exchange that was sent (0: none)
Outcomes(s, o) == UNION {{[s |-> Begin(Rest(t, o), j), sent |-> j] : j \in Begins(t)} : t \in Effects(s, o)}
\* noise: whatever happens to a client other than these
Touched(w, c, o) == IF o.op = "elapse" THEN DOMAIN w ELSE IF o.op = "noise" THEN {} ELSE {c}
===============================================================================
