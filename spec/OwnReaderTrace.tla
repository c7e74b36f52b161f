---------------------------- MODULE OwnReaderTrace ----------------------------
(* Reads of the real client judged by OwnReader: after each operation, the outcome
   of every read must be one that the specification allows.                        *)
EXTENDS OwnReader, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

\* what went wrong at operation o, seen from one of the states allowed before it
Why(s, o, obs) ==
  LET t == CHOOSE t \in Next1(s, o) : TRUE
      bad == {i \in 1..Len(t.res) : t.res[i] # obs[i]}
      kind(i) == IF obs[i].s \notin {"pending", "ok", "timeout", "cancelled"} THEN "error"
                 ELSE IF obs[i].s = "ok" /\ t.res[i].s = "ok" THEN "order"
                 ELSE IF obs[i].s = "ok" THEN "invented or repeated"
                 ELSE IF t.res[i].s = "ok" THEN "lost or late"
                 ELSE "time limit"
  IN  {kind(i) : i \in bad}

RECURSIVE Walk(_, _, _)
Walk(S, r, i) ==
  IF i > Len(r.ops) THEN {}
  ELSE LET N == {t \in UNION {Next1(s, r.ops[i]) : s \in S} : t.res = r.obs[i]}
       IN  IF N = {} THEN Why(CHOOSE s \in S : TRUE, r.ops[i], r.obs[i]) ELSE Walk(N, r, i + 1)
C13Clauses(r) == Walk({Begin}, r, 1)
===============================================================================
