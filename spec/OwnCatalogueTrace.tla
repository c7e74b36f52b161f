--------------------------- MODULE OwnCatalogueTrace ---------------------------
(* Calls of the real items judged by OwnCatalogue.
   "call": the frames that were sent and how the call ended before any reply;
   "query": the responses the gateway gave and the values the call returned;
   "clock": a value written to the gateway and read back.                            *)
EXTENDS OwnCatalogue, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

C18Clauses(r) ==
  IF r.k # "call" THEN {}
  ELSE LET w == Call(r)
       IN  IF ~w.ok THEN If(r.frames = <<>>, "sent an invalid frame") \cup If(r.st = "value", "invalid arguments accepted")
           ELSE IF r.m = "turn_on_30_min" /\ r.frames = <<ThirtySeconds(r)>> THEN {"thirty.seconds"}
           ELSE If(r.st = "sent", "refused") \cup If(Len(r.frames) = 1 /\ r.frames[1] \in w.fs, "frame")

C19Clauses(r) ==
  IF r.k # "query" THEN {}
  ELSE If(r.st = "ok", "failed") \cup (IF r.st = "ok" THEN If(r.vals = Decode(r, r.resp), "value") ELSE {})

\* clock: cls, m (the setter), a, frames, st; vals: what the getter returned for the same values
Wrote(r) == Values(r.frames[1])
Expected(r) == CASE r.m = "set_time" -> TimeOf(Wrote(r)) [] r.m = "set_date" -> DateOf(Wrote(r)) [] r.m = "set_datetime" -> DateTimeOf(Wrote(r))
Object(r) == CASE r.m = "set_time" -> V("time", Fields(<<r.a[1], r.a[2], r.a[3], r.a[4] * 60>>))
               [] r.m = "set_date" -> V("date", Fields(<<r.a[3], r.a[2], r.a[1]>>))
               [] r.m = "set_datetime" -> V("datetime", Fields(<<r.a[7], r.a[6], r.a[5], r.a[1], r.a[2], r.a[3], r.a[4] * 60>>))
C20Clauses(r) ==
  IF r.k # "clock" THEN {}
  ELSE LET w == Call(r)
       IN  IF ~w.ok THEN If(r.frames = <<>>, "sent without a timezone") \cup If(r.st = "value", "accepted without a timezone")
           ELSE If(Len(r.frames) = 1 /\ r.frames[1] \in w.fs, "frame")
                \cup If(r.st = "ok", "failed")
                \cup (IF r.st = "ok" THEN If(r.vals = <<<<Object(r)>>>>, "read back") ELSE {})
===============================================================================
