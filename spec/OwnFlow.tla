-------------------------------- MODULE OwnFlow --------------------------------
(* Flow control of the sends (C14).  Anchored in pyown/protocol/protocol.py
   (pause_writing, resume_writing, send_message, connection_lost).

   paused, lost   the transport's state
   arm            the next write fills the transport's buffer: it pauses during that write
   calm           milliseconds of uninterrupted writing permission
   sends          each send: [w |-> written, st |-> "pending" | "done" | "failed" | "cancelled"]
   An operation [op, n]: send, pause, resume, arm, elapse (n ms), cancel (send n), lost.
   When a blocked send is written after writing resumes is not fixed, only bounded:
   May is the set of sends that an operation may write, Must the ones it has to.     *)
EXTENDS Naturals, Sequences, FiniteSets

Soon == 1000       \* milliseconds that count as "a short time"

Quiet == [paused |-> FALSE, lost |-> FALSE, arm |-> FALSE, calm |-> 0, sends |-> <<>>]

\* the state after the operation itself, before the writes it causes
Apply(s, o) ==
  CASE o.op = "send"   -> [s EXCEPT !.sends = Append(@, [w |-> FALSE, st |-> "pending"])]
    [] o.op = "pause"  -> [s EXCEPT !.paused = TRUE, !.calm = 0]
    [] o.op = "resume" -> [s EXCEPT !.paused = FALSE, !.calm = 0]
    [] o.op = "arm"    -> [s EXCEPT !.arm = ~s.lost]
    [] o.op = "elapse" -> IF s.paused THEN s ELSE [s EXCEPT !.calm = @ + o.n]
    [] o.op = "cancel" -> IF s.sends[o.n].st = "pending" THEN [s EXCEPT !.sends[o.n].st = "cancelled"] ELSE s
    [] o.op = "lost"   -> [s EXCEPT !.lost = TRUE, !.paused = FALSE, !.arm = FALSE, !.calm = 0]

Open(s) == {i \in 1..Len(s.sends) : s.sends[i].st = "pending" /\ ~s.sends[i].w}
May(s, o)  == LET t == Apply(s, o) IN IF t.paused THEN {} ELSE Open(t)
Must(s, o) == LET t == Apply(s, o) IN
              IF t.paused \/ t.lost THEN {}
              ELSE (IF o.op = "send" THEN {Len(t.sends)} ELSE {})
                   \cup (IF t.calm >= Soon THEN Open(t) ELSE {})
\* the sends that have to be finished after it
Finished(s, o) == LET t == Apply(s, o) IN
                  (IF t.arm THEN {} ELSE Must(s, o)) \cup (IF t.lost /\ t.calm >= Soon THEN Open(t) ELSE {})

\* the sets of sends that the operation may write
Allowed(s, o, W) == /\ W \subseteq May(s, o)
                    /\ IF Apply(s, o).arm THEN Cardinality(W) <= 1 /\ (Must(s, o) # {} => W # {})
                       ELSE Must(s, o) \subseteq W
Write(s, o, W) == LET t == Apply(s, o)
                      full == t.arm /\ W # {}
                  IN  [t EXCEPT !.sends = [i \in 1..Len(@) |-> IF i \in W THEN [@[i] EXCEPT !.w = TRUE] ELSE @[i]],
                                !.arm = @ /\ ~full, !.paused = @ \/ full, !.calm = IF full THEN 0 ELSE @]
===============================================================================
