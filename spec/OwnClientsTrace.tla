---------------------------- MODULE OwnClientsTrace ----------------------------
(* A process with several clients: the history of each is judged as if it were alone.
   exch: the exchanges of each client (what happens elsewhere appears as no time passing);
   pipes: what reached clients that are read by hand, and what they read;
   events, told: the events of the listening clients (l: which) and what the callbacks
   heard (l: whose command client the item has, 0: neither);
   stray: how many frames the event clients sent (none may).                             *)
EXTENDS OwnExchangeTrace

ClientsClauses(r) ==
  UNION {Walk({Idle}, r.exch[c], 1) : c \in 1..Len(r.exch)}
  \cup UNION {If(r.pipes[i].got = r.pipes[i].sent, "read another client's messages") : i \in 1..Len(r.pipes)}
  \cup If(r.told = r.events, "events")
  \cup If(r.running, "event loop ended")
  \cup If(\A i \in 1..Len(r.stray) : r.stray[i] = 0, "sent on another client")
===============================================================================
