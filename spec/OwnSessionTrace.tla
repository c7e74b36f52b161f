---------------------------- MODULE OwnSessionTrace ----------------------------
(* Handshakes of the real client judged by OwnSession.
   kind "hs": steps[i] is what the gateway did, obs[i] what followed it: the frames
   the client sent and the state of start().  obs0 is the state before the first step.
   oracle: the values of SHA-1/SHA-256 needed, computed outside the code under test.
   kind "unreachable": the outcome of start() when the connection cannot be made.
   kind "fresh": the client keys of several sessions.                             *)
EXTENDS OwnSession, OwnVerdict
If(c, name) == IF c THEN {} ELSE {name}

TableSha(env, alg, text) ==
  LET hits == {i \in 1..Len(env.oracle) : env.oracle[i].alg = alg /\ env.oracle[i].text = text}
  IN  IF hits = {} THEN <<>> ELSE env.oracle[CHOOSE i \in hits : TRUE].hash

KeyLen(alg) == IF alg = 1 THEN 40 ELSE 64

\* the client key in the frame *#Rb*digest##, or <<>>
RbIn(f, alg) ==
  LET m == Parse(f) IN
  IF ~m.ok \/ m.type # "GENERIC" \/ Len(m.tags) # 2 THEN <<>>
  ELSE LET t == m.tags[1] IN
       IF Len(t) = 1 + 2 * KeyLen(alg) /\ Head(t) = Hash /\ IsDigitsOfHex(Tail(t)) THEN ToHex(Tail(t)) ELSE <<>>

ProofText(env, s, rb) == FrameOf(<< <<Hash>> \o ToDigits(rb), ToDigits(ClientProof(env, s.alg, s.ra, rb)) >>)

\* one packet of frames against the frames sent: st = [s, left, bad]
OneFrame(env, st, f) ==
  LET r == Frame(env, st.s, f)
      n == Len(r.out)
  IN  IF st.bad # {} THEN st
      ELSE IF n = 0 THEN [st EXCEPT !.s = r.s]
      ELSE IF st.left = <<>> THEN [st EXCEPT !.s = r.s, !.bad = {"a frame of the handshake is missing"}]
      ELSE IF r.out[1].kind = "text"
      THEN [st EXCEPT !.s = r.s, !.left = Tail(@),
                      !.bad = If(Head(st.left) = r.out[1].text, "frame sent")]
      ELSE LET rb == RbIn(Head(st.left), r.s.alg)
           IN  [st EXCEPT !.s = [r.s EXCEPT !.rb = rb], !.left = Tail(@),
                          !.bad = If(rb # <<>>, "client key")
                                  \cup If(rb = <<>> \/ Head(st.left) = ProofText(env, r.s, rb), "client proof")]

Ended(s) == ~Waiting(s)
Outcome(s, o, down) ==
  IF down /\ Waiting(s) THEN If(o.res \in {"pending", "timeout", "auth"}, "outcome")
  ELSE IF down THEN If(o.res = s.res \/ (s.res = "timeout" /\ o.res = "auth"), "outcome")
  ELSE If(o.res = s.res, "outcome")

At(s, left) == [s |-> s, left |-> left, bad |-> {}]

RECURSIVE Walk(_, _, _, _)
Walk(env, s, down, i) ==
  IF i > Len(env.steps) THEN {}
  ELSE LET e == env.steps[i]
           o == env.obs[i]
           st == IF e.in = "frames" /\ ~down
                 THEN FoldLeft(LAMBDA a, f : OneFrame(env, a, f), At(s, o.sent), e.frames)
                 ELSE IF e.in = "elapse" THEN At(Elapse(s, e.ms), o.sent)
                 ELSE At(s, o.sent)
           gone == down \/ e.in \in {"drop", "garbage"}
           bad == st.bad \cup If(st.left = <<>> \/ st.bad # {}, "sent out of turn")
                  \cup Outcome(st.s, o, gone)
       IN  IF bad # {} THEN bad ELSE Walk(env, st.s, gone, i + 1)

HsClauses(r) ==
  CASE r.k = "hs" -> If(r.obs0.sent = <<>> /\ r.obs0.res = "pending", "sent before the greeting")
                     \cup Walk(r, Began, FALSE, 1)
    [] r.k = "unreachable" -> If(r.res = "timeout", "unreachable host")
    [] r.k = "fresh" -> If(Cardinality({r.keys[i] : i \in 1..Len(r.keys)}) = Len(r.keys), "client key repeated")
                        \cup If(\A i \in 1..Len(r.keys) : r.keys[i] # r.ra, "client key is the server key")
C10Clauses(r) == HsClauses(r)
C11Clauses(r) == HsClauses(r)
===============================================================================
