----------------------------- MODULE OwnLifecycle -----------------------------
(* The life of clients: started, closed, started again, dropped, and what each
   operation does at each point of it (C12, C25).  Anchored in
   pyown/client/base.py (start, send_message, read_message, close), client.py
   (loop), items/base.py (the commands of the items) and
   docs/original/intro.md (sessions).

   A client:  type  "cmd", "old" or "event"
              ph    "idle"  not started, or closed
                    "up"    in session
                    "half"  a handshake that stopped or failed, or a dropped
                            connection: only closing is specified
              inbox messages received in this session and not read
              loop  its event loop runs (and reads the inbox)
              conns connections opened so far
   An operation [c, op, text] is done on client c.  Want gives its outcome and
   the frame it puts on the wire of that client; no operation touches another
   client.                                                                      *)
EXTENDS Naturals, Sequences, FiniteSets

CanSend(type) == type \in {"cmd", "old"}
SessionCode(type) == CASE type = "cmd" -> <<57>> [] type = "old" -> <<48>> [] type = "event" -> <<49>>

NewClient(type) == [type |-> type, ph |-> "idle", inbox |-> <<>>, loop |-> FALSE, conns |-> 0]

\* reopen: close and start, with nothing in between
Starts  == {"start", "refuse", "nack", "stall", "reopen"}
Uses    == {"send", "force", "read", "cmd", "request", "loop"}
Ops     == Starts \cup Uses \cup {"close", "recv", "drop", "readclose", "burst"}

\* which operations have a specified outcome
Enabled(k, op) ==
  CASE op = "reopen" -> TRUE
    [] op \in Starts -> k.ph = "idle"
    [] op = "close"  -> TRUE
    [] op = "recv" \/ op = "drop" -> k.ph = "up"
    [] op = "readclose" -> k.ph = "up" /\ ~k.loop /\ k.inbox = <<>>
    [] op = "burst" -> k.ph = "up" /\ CanSend(k.type)
    [] op = "read" \/ op = "loop" -> k.ph = "idle" \/ (k.ph = "up" /\ ~k.loop)
    [] op \in {"cmd", "request"} -> k.ph = "idle" \/ (k.ph = "up" /\ (k.inbox = <<>> \/ ~CanSend(k.type)))
    [] OTHER -> k.ph \in {"idle", "up"}

Refused == [res |-> "session", wire |-> "none"]
Silent(res) == [res |-> res, wire |-> "none"]
Want(k, op) ==
  CASE op \in Uses /\ k.ph = "idle" -> Refused
    [] op = "send"  -> IF CanSend(k.type) THEN [res |-> "ok", wire |-> "text"] ELSE Refused
    [] op = "force" -> [res |-> "ok", wire |-> "text"]
    [] op \in {"cmd", "request"} -> IF CanSend(k.type) THEN [res |-> "ok", wire |-> "some"] ELSE Refused
    [] op = "read"  -> IF k.inbox = <<>> THEN Silent("timeout") ELSE Silent("message")
    [] op = "loop"  -> IF CanSend(k.type) THEN Refused ELSE Silent("pending")
    [] op \in {"start", "reopen"} -> [res |-> "ok", wire |-> "greeting"]
    [] op = "refuse" -> Silent("timeout")
    [] op = "nack"  -> [res |-> "auth", wire |-> "some"]
    [] op = "stall" -> [res |-> "pending", wire |-> "any"]
    [] op = "burst" -> [res |-> "ok", wire |-> "text"]
    [] OTHER -> Silent("ok")

After(k, op, text) ==
  CASE op \in {"start", "reopen"} -> [k EXCEPT !.ph = "up", !.inbox = <<>>, !.loop = FALSE, !.conns = @ + 1]
    [] op \in {"nack", "stall"} -> [k EXCEPT !.ph = "half", !.inbox = <<>>, !.loop = FALSE, !.conns = @ + 1]
    [] op \in {"close", "readclose", "burst"} -> [k EXCEPT !.ph = "idle", !.inbox = <<>>, !.loop = FALSE]
    [] op = "recv" -> IF k.loop THEN k ELSE [k EXCEPT !.inbox = Append(@, text)]
    [] op = "drop" -> [k EXCEPT !.ph = "half"]
    [] op = "read" /\ k.ph = "up" /\ k.inbox # <<>> -> [k EXCEPT !.inbox = Tail(@)]
    [] op = "loop" /\ k.ph = "up" /\ ~CanSend(k.type) -> [k EXCEPT !.loop = TRUE, !.inbox = <<>>]
    [] OTHER -> k

\* operations that must end the connection (that of before, for reopen)
Ends(k, op) == op \in {"close", "readclose", "burst"}
===============================================================================
