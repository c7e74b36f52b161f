------------------------------ MODULE OwnVerdict ------------------------------
(* Judging records of the real code one by one.  The environment variable TRACE
   names an ndjson file; a module that extends this one gives, through the
   configuration, the operator Clauses: the names of the clauses of the property
   that a record breaks.  The trace is cut into chunks so that all workers judge. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANT Clauses(_)
VARIABLES chunk, judged

Trace   == ndJsonDeserialize(IOEnv.TRACE)
Total   == Len(Trace)
Chunks  == 32
Members(c) == {i \in 1..Total : i % Chunks = c % Chunks}

Init == chunk \in 1..Chunks /\ judged = FALSE
Next == /\ ~judged
        /\ judged' = TRUE
        /\ chunk' = chunk
        /\ \A i \in Members(chunk) :
             LET b == Clauses(Trace[i])
             IN  IF b = {} THEN TRUE ELSE PrintT(ToJson([k |-> "bad", i |-> i, clauses |-> b]))
        /\ PrintT(ToJson([k |-> "judged", n |-> Cardinality(Members(chunk))]))
===============================================================================
