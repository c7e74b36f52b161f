-------------------------------- MODULE OwnCrash --------------------------------
(* What a caller gets when the connection is lost at any byte of the answer (C29).
   The answer is a sequence of frames [f, id, n]: f in "val" "ack" "nack" "other",
   n its length in bytes.  Only what arrived whole before the loss counts.
   Anchored in pyown/items/base.py (_send_command, _send_request), pyown/client/base.py
   (read_message, start, close) and pyown/protocol/protocol.py (the partial message). *)
EXTENDS Naturals, Sequences

RECURSIVE Whole(_, _, _)
Whole(fs, cut, k) == IF k < Len(fs) /\ fs[k + 1].n <= cut THEN Whole(fs, cut - fs[k + 1].n, k + 1) ELSE k
Arrived(fs, cut) == SubSeq(fs, 1, Whole(fs, cut, 0))

Res(st, out) == [st |-> st, out |-> out]
Ends(fs) == {i \in 1..Len(fs) : fs[i].f \in {"ack", "nack"}}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Ids(fs) == [i \in 1..Len(fs) |-> fs[i].id]
Upto(fs, i) == SubSeq(fs, 1, i)

\* the result of an exchange of which the frames fs arrived; "lost": an error, whichever
Command(fs) == IF fs = <<>> THEN Res("lost", <<>>) ELSE Res(IF fs[1].f = "ack" THEN "ok" ELSE "refused", <<>>)
Request(fs, one) ==
  IF Ends(fs) = {} THEN Res("lost", Ids(fs))
  ELSE LET i == First(Ends(fs))
       IN  IF fs[i].f = "nack" THEN Res("refused", Ids(Upto(fs, i - 1)))
           ELSE IF ~one THEN Res("ok", Ids(Upto(fs, i - 1)))
           ELSE IF i = 1 THEN Res("refused", <<>>) ELSE Res("ok", <<fs[1].id>>)
Outcome(kind, fs) == IF kind = "cmd" THEN Command(fs) ELSE Request(fs, kind = "one")
===============================================================================
