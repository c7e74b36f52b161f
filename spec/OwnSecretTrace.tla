----------------------------- MODULE OwnSecretTrace -----------------------------
(* One life of a client: everything of it that others can read (frames, log records,
   texts of errors, printed texts, textual forms of its objects) and the concrete forms of
   what OwnSecret calls Secrets: the password and its hashes, in every notation.
   The OPEN answer may happen to be the password itself (nonces like 99): `excused`.       *)
EXTENDS OwnPassword, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

Shows(t, s) == Len(s) > 0 /\ \E i \in 1..(Len(t) - Len(s) + 1) : t[i] = s[1] /\ SubSeq(t, i, i + Len(s) - 1) = s
Excused(r) == \E i \in 1..Len(r.nonces) : Decimal(Answer(r.bits, r.nonces[i])) = r.secrets[1]
SecretClauses(r) ==
  IF Excused(r) THEN {}
  ELSE UNION {If(\A s \in 1..Len(r.secrets) : ~Shows(r.texts[i].t, r.secrets[s]), r.texts[i].from) : i \in 1..Len(r.texts)}
===============================================================================
