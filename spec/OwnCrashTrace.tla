----------------------------- MODULE OwnCrashTrace -----------------------------
(* Calls of the real library whose connection was lost, judged by OwnCrash.
   kind "cut":    one exchange, others that wait behind it, and the next session
   kind "reads":  messages read by hand
   kind "shake":  a handshake cut short                                            *)
EXTENDS OwnCrash, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}
Prefix(p, q) == Len(p) <= Len(q) /\ p = SubSeq(q, 1, Len(p))
Error(st) == st \notin {"ok", "pending"}

\* the client works again, and nothing of the broken connection is seen
AfterBad(a) == If(a.start = "ok", "not started again") \cup If(a.st = "ok" /\ a.sent = 1, "unusable afterwards") \cup If(a.out = a.own, "remains of the old connection")
CutBad(r) ==
  LET w == Outcome(r.kind, Arrived(r.frames, r.cut))
  IN  If(r.st # "pending", "never ended")
      \cup If((w.st = "ok") = (r.st = "ok"), IF r.st = "ok" THEN "completed without the answer" ELSE "answer lost")
      \cup If(w.st = "refused" => r.st = "refused", "refusal lost")
      \cup If(IF r.st = "ok" THEN r.out = w.out ELSE Prefix(r.out, w.out), "wrong values")
      \cup If(\A i \in 1..Len(r.others) : Error(r.others[i].st) /\ r.others[i].out = <<>>, "the others")
      \cup AfterBad(r.after)
ReadsBad(r) ==
  LET fs == Arrived(r.frames, r.cut)
      n == Len(fs)
  IN  If(Len(r.reads) > n /\ \A i \in 1..n : r.reads[i].st = "ok" /\ r.reads[i].m = fs[i].m, "messages lost")
      \cup If(\A i \in (n + 1)..Len(r.reads) : Error(r.reads[i].st), "message invented")
      \cup AfterBad(r.after)
ShakeBad(r) ==
  If((r.st = "ok") = (r.cut >= r.total), IF r.st = "ok" THEN "completed without the answer" ELSE "answer lost")
  \cup If(r.st # "pending", "never ended") \cup AfterBad(r.after)
CrashClauses(r) == IF r.k = "cut" THEN CutBad(r) ELSE IF r.k = "reads" THEN ReadsBad(r) ELSE ShakeBad(r)
===============================================================================
