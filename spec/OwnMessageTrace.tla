---------------------------- MODULE OwnMessageTrace ----------------------------
(* Records of the real message classes judged by OwnMessage.

   parse: one call of parse_message.  res = "ok" | "parse" (ParseError) | "other"
          (any other exception) | "slow"; then what the message shows of itself.
   build: one message built from tags, rendered and parsed again.
   pair : two accepted texts compared.
   long : parse_message on pre unit^n suf with n in the thousands.               *)
EXTENDS OwnMessage, OwnVerdict

If(c, name) == IF c THEN {} ELSE {name}

\* the message as a record shows it
Seen(r) == Msg(r.type, r.who, r.what, r.where, r.dim, r.values, r.tags)

RECURSIVE Rep(_, _)
Rep(u, n) == IF n = 0 THEN <<>> ELSE u \o Rep(u, n - 1)
LongText(r, n) == r.pre \o Rep(r.unit, n) \o r.suf

\* ---- C02: classification -------------------------------------------------------
ParseBad(r) ==
  LET m == Parse(r.in)
  IN  If(r.res \in {"ok", "parse"}, "total")
      \cup IF Ambiguous(r.in) \/ r.res \notin {"ok", "parse"} THEN {}
           ELSE If((r.res = "ok") = m.ok, "accept")
                \cup IF r.res = "ok" /\ m.ok
                     THEN If(r.type = m.type, "type")
                          \cup If(r.tags = m.tags, "tags")
                          \cup If(Seen(r) = m, "parts")
                     ELSE {}

LongBad(r) == If(r.res \in {"ok", "parse"}, "total")
              \cup If(r.res \in {"ok", "parse"} => (r.res = "ok") = Parse(LongText(r, 4)).ok, "accept")

C02Clauses(r) == CASE r.k = "parse" -> ParseBad(r) [] r.k = "long" -> LongBad(r)

\* ---- C01: round trip -----------------------------------------------------------
TextBad(r) ==
  IF r.res # "ok" THEN {}
  ELSE LET t == Strip(r.in)
       IN  If(r.text = t, "message") \cup If(r.str = t, "str") \cup If(r.bytes = t, "bytes")
           \cup If(r.again = "ok", "reparse")
           \cup If(r.again = "ok" => r.againtype = r.type /\ r.againtags = r.tags /\ r.eq /\ r.heq, "equal")

BuildBad(r) ==
  LET m == Seen(r)
      t == Render(m)
  IN  IF ~WellBuilt(m) THEN {"driver built an ambiguous message"}
      ELSE If(r.res = "ok", "build")
           \cup IF r.res # "ok" THEN {}
                ELSE If(r.text = t, "message") \cup If(r.str = t, "str") \cup If(r.bytes = t, "bytes")
                     \cup If(r.again = "ok", "reparse")
                     \cup If(r.again = "ok" => r.againtype = m.type, "type")
                     \cup If(r.again = "ok" => r.againtags = m.tags, "tags")
                     \cup If(r.again = "ok" => r.eq /\ r.heq, "equal")

PairBad(r) ==
  LET same == Parse(r.a) = Parse(r.b)
  IN  If(r.eq = same /\ r.qe = same, "equal") \cup If(r.ne # same /\ r.en # same, "unequal")
      \cup If(same => r.heq, "hash")

C01Clauses(r) ==
  CASE r.k = "parse" -> TextBad(r) [] r.k = "build" -> BuildBad(r) [] r.k = "pair" -> PairBad(r)

\* ---- C05: one frame ------------------------------------------------------------
TagBad(r) ==
  LET good == ValidTag(r.in)
  IN  If(r.res = (IF good THEN "ok" ELSE "invalid"), "accept")
      \cup If(good /\ r.res = "ok" => r.text = r.in, "text")

FrameBad(r) ==
  IF \A i \in 1..Len(r.tags) : ValidTag(r.tags[i])
  THEN IF /\ \A i \in 1..Len(r.tags) : CleanTag(r.tags[i])
          /\ r.kind = "writing" => r.tags[2] # <<>> /\ Head(r.tags[2]) # Hash
       THEN If(r.res = "ok", "build")
            \cup If(r.res = "ok" => IsFrame(r.bytes) /\ r.bytes = r.text, "frame")
       ELSE {}
  ELSE If(r.res = "invalid", "injection")

C05Clauses(r) == CASE r.k = "tag" -> TagBad(r) [] r.k = "frame" -> FrameBad(r)
===============================================================================
