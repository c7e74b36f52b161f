--------------------------- MODULE OwnPasswordTrace ---------------------------
(* Records of own_calc_pass and of the answer frame of a client.  `bits` is the
   password as a word; its decimal text must be `password`.  A nonce without any
   digit but 0 leaves nothing to compute and is not judged.                      *)
EXTENDS OwnPassword, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}
C08Clauses(r) ==
  IF Decimal(r.bits) # r.password THEN {"driver: password and bits differ"}
  ELSE IF AllIn(r.nonce, {Zero}) THEN {}
  ELSE If(r.res = "ok" /\ r.out = Decimal(Answer(r.bits, r.nonce)), "answer")
===============================================================================
