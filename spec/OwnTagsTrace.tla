----------------------------- MODULE OwnTagsTrace -----------------------------
(* Records of the real tags judged by OwnTags.                                  *)
EXTENDS OwnTags, OwnVerdict

If(c, name) == IF c THEN {} ELSE {name}

\* ---- C06 ------------------------------------------------------------------------
\* param: a tag and what with_parameter makes of it
ParamBad(r) ==
  IF r.res # "ok" THEN {"raised"}
  ELSE If(r.text = r.in, "text")
       \cup IF r.plain
            THEN If(r.noparams, "parameters")
            ELSE If(r.tag = Base(r.in), "tag") \cup If(r.params = Params(r.in), "parameters")
       \cup If(r.after = WithParam(r.in, r.p), "with_parameter")
       \cup If(r.afterparams = Params(WithParam(r.in, r.p)), "new parameters")
       \cup If(r.aftertag = Base(WithParam(r.in, r.p)), "new tag")
       \cup If(r.unchanged = r.in, "original changed")

\* cmp: a tag compared with a tag, a string or an integer (b is its text), or with anything else
CmpBad(r) ==
  LET same == r.kind # "other" /\ r.a = r.b
  IN  If(r.eq = same, "equal") \cup If(r.ne # same, "unequal")
      \cup If(r.kind \in {"tag", "other"} => r.qe = same, "symmetric")
      \cup If(same /\ r.kind = "tag" => r.heq, "hash")

WhoBad(r) ==
  IF r.in \in WhoCode
  THEN If(r.res = "ok", "rejected") \cup If(r.res = "ok" => r.text = r.in /\ r.str = r.in, "code")
       \cup If(r.res = "ok" => r.name # <<>>, "name")
  ELSE If(r.res = "invalid", "accepted")

WhoAllBad(r) ==
  If({r.codes[i] : i \in 1..Len(r.codes)} = WhoCode /\ Len(r.codes) = Cardinality(WhoCode), "table")
  \cup If(Cardinality({r.names[i] : i \in 1..Len(r.names)}) = Cardinality(WhoCode), "distinct names")
  \cup If(\A a \in DOMAIN WhoTable : a \in DOMAIN r.attributes /\ r.attributes[a] = NatText(WhoTable[a]), "attribute")

C06Clauses(r) == CASE r.k = "param" -> ParamBad(r) [] r.k = "cmp" -> CmpBad(r)
                   [] r.k = "who" -> WhoBad(r) [] r.k = "whoall" -> WhoAllBad(r)

\* ---- C07 ------------------------------------------------------------------------
C07Clauses(r) == IF Kind(r.in) = "NONE" THEN {"driver: not in the table"}
                 ELSE If(r.kind = Kind(r.in), "kind")

\* the driver visited the whole table
C07Complete ==
  {Trace[i].in : i \in 1..Total} = Addresses \cup {LocalBus(t, i) : t \in Addresses \cup {<<>>}, i \in Interfaces}
ASSUME IF IOEnv.PROPERTY = "C07" THEN C07Complete ELSE TRUE

\* ---- C09 ------------------------------------------------------------------------
CodecBad(r) ==
  CASE r.dir = "enc" -> IF IsHex(r.in)
                        THEN If(r.res = "ok" /\ r.out = ToDigits(r.in), "encode")
                             \cup If(r.back = Lower(r.in), "lossless")
                        ELSE {}
    [] r.dir = "dec" -> IF IsDigitsOfHex(r.in)
                        THEN If(r.res = "ok" /\ r.out = ToHex(r.in), "decode")
                             \cup If(r.back = r.in, "lossless")
                        ELSE {}

\* digest: oracle is a list of [text, hash] pairs computed with hashlib by the driver;
\* the specification says which text has to be hashed.
Hashed(r, text) == LET S == {i \in 1..Len(r.oracle) : r.oracle[i].text = text}
                   IN  IF S = {} THEN <<>> ELSE r.oracle[CHOOSE i \in S : TRUE].hash
DigestBad(r) ==
  LET kab == Hashed(r, r.password)
      c == Hashed(r, r.ra \o r.rb \o r.ida \o r.idb \o kab)
      s == Hashed(r, r.ra \o r.rb \o kab)
  IN  IF kab = <<>> \/ c = <<>> \/ s = <<>> THEN {"driver: oracle incomplete"}
      ELSE If(r.client = c, "client digest") \cup If(r.server = s, "server digest")

KeyBad(r) ==
  LET n == IF r.alg = 1 THEN 40 ELSE 64
  IN  If(\A i \in 1..Len(r.keys) : Len(r.keys[i]) = n /\ IsHex(r.keys[i]), "length")
      \cup If(Cardinality({r.keys[i] : i \in 1..Len(r.keys)}) = Len(r.keys), "fresh")

AlgBad(r) == If(r.alg = (IF r.in = <<49>> THEN 1 ELSE IF r.in = <<50>> THEN 2 ELSE 0), "algorithm")
             \cup If(r.alg \in {1, 2} => r.msg = <<42, 57, 56, 42>> \o r.in \o <<35, 35>>, "message of the algorithm")
CompareBad(r) == If(r.same = (r.a = r.b), "compare")

C09Clauses(r) == CASE r.k = "codec" -> CodecBad(r) [] r.k = "digest" -> DigestBad(r)
                   [] r.k = "keys" -> KeyBad(r) [] r.k = "alg" -> AlgBad(r) [] r.k = "compare" -> CompareBad(r)
===============================================================================
