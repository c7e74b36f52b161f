----------------------------- MODULE OwnCustomTrace -----------------------------
(* made:  text and type of the message that a create method returned
   sent:  frames that a send method put on the wire
   answer: frames the gateway answered with, before the acknowledgement; got: what was yielded
   res:   how the call ended (after the acknowledgement)                                   *)
EXTENDS OwnCustom, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

Want(r) == MessageOf([who |-> r.who, where |-> r.where], [m |-> r.m, tag |-> r.tag, values |-> r.values])
CustomClauses(r) ==
  LET w == Want(r) IN
  IF ~WellBuilt(w) THEN {"driver: not a message of this kind"}
  ELSE IF \E i \in 1..Len(r.answer) : Parse(r.answer[i]).ok = FALSE \/ Parse(r.answer[i]).type # AnswerType(r.m) THEN {"driver: not an answer"}
  ELSE IF r.k = "make" THEN If(r.res = "ok", "failed") \cup (IF r.res # "ok" THEN {} ELSE If(r.made = Render(w), "text") \cup If(r.type = w.type, "type"))
  ELSE If(r.sent = <<Render(w)>>, "sent") \cup If(r.res = "ok", "failed") \cup If(r.got = r.answer, "answer")
===============================================================================
