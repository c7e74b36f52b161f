----------------------------- MODULE OwnFlowTrace -----------------------------
(* Sends of the real protocol judged by OwnFlow: wrote, the sends whose frame was
   written during the operation (0: something else); done, the state of each send.
   kind "e2e": what a slow gateway received from a real connection.                *)
EXTENDS OwnFlow, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}
ToSet(q) == {q[i] : i \in 1..Len(q)}

OpBad(s, o, b) ==
  LET W == ToSet(b.wrote)
      t == Apply(s, o)
  IN  If(0 \notin W, "not a whole frame")
      \cup If(Cardinality(W) = Len(b.wrote) /\ \A i \in W : i = 0 \/ ~s.lost => i = 0 \/ i > Len(s.sends) \/ ~s.sends[i].w, "written twice")
      \cup If(t.paused => W = {}, "written while paused")
      \cup If(\A i \in 1..Len(t.sends) : t.sends[i].st = "cancelled" => i \notin W, "written after cancellation")
      \cup If(t.lost \/ t.paused \/ 0 \in W \/ Allowed(s, o, W) \/ (t.arm /\ Cardinality(W) > 1), "not written in time")
      \cup If(t.arm => Cardinality(W) <= 1, "written while paused")
      \cup If(\A i \in 1..Len(b.done) : b.done[i] = "done" => i \in W \/ t.sends[i].w \/ t.lost, "completed before it was written")
      \cup If(\A i \in Finished(s, o) : i <= Len(b.done) => b.done[i] # "pending", "not completed")
      \cup If(\A i \in 1..Len(b.done) : b.done[i] = "failed" => t.lost, "failed")

\* the state after what was observed
Observed(s, o, b) == LET t == Write(s, o, ToSet(b.wrote) \ {0})
                     IN  [t EXCEPT !.sends = [i \in 1..Len(@) |-> [@[i] EXCEPT !.st = b.done[i]]]]

RECURSIVE Walk(_, _, _)
Walk(s, r, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE IF r.ops[i].op = "disarm" THEN Walk([s EXCEPT !.arm = FALSE], r, i + 1)
  ELSE LET b == OpBad(s, r.ops[i], r.obs[i])
       IN  IF b # {} THEN b ELSE Walk(Observed(s, r.ops[i], r.obs[i]), r, i + 1)

E2EBad(r) == If(r.done, "not completed")
             \cup If(ToSet(r.got) = 1..r.sends, "lost or broken")
             \cup If(Len(r.got) = r.sends, "written twice")
             \cup If(r.ordered => r.got = [i \in 1..r.sends |-> i], "order")
C14Clauses(r) == IF r.k = "flow" THEN Walk(Quiet, r, 1) ELSE E2EBad(r)
===============================================================================
