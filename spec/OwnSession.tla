------------------------------ MODULE OwnSession ------------------------------
(* The handshake of a client with its gateway (C10, C11).  Anchored in
   pyown/client/base.py (start, _authenticate_open, _authenticate_hmac),
   docs/original/intro.md and docs/original/hmac.md.

   The client is a state machine fed with frames and with the passing of time:
     ph  "ack"   waiting for the greeting           "auth"  session announced
         "open"  OPEN answer sent                   "key"   algorithm accepted
         "proof" own key and proof sent             "ready" | "failed"
     t   milliseconds since it began to wait for the current frame
     res "pending" | "ok" | "auth" (InvalidAuthentication) | "timeout"
   env gives the session type, the password (text and 32-bit word) and, for Sha,
   whatever the model of the hash function needs.                               *)
EXTENDS OwnTags, OwnPassword

CONSTANT Sha(_, _, _)      \* env, algorithm (1: SHA-1, 2: SHA-256), text: hexadecimal text

Patience == 5000
ClientId == <<55, 51, 54, 70, 55, 48, 54, 53, 51, 69>>      \* A = 736F70653E
ServerId == <<54, 51, 54, 70, 55, 48, 54, 53, 51, 69>>      \* B = 636F70653E

Kab(env, alg) == Sha(env, alg, env.password)
ClientProof(env, alg, ra, rb) == Sha(env, alg, ra \o rb \o ClientId \o ServerId \o Kab(env, alg))
ServerProof(env, alg, ra, rb) == Sha(env, alg, ra \o rb \o Kab(env, alg))

FrameOf(tags) == <<Star>> \o Join(Star, tags) \o Terminator
AckText  == Render(Ack)
NackText == Render(Nack)
SessionText(env) == FrameOf(<< <<57, 57>>, env.session >>)

Began == [ph |-> "ack", t |-> 0, res |-> "pending", alg |-> 0, ra |-> <<>>, rb |-> <<>>]
Fail(s, why) == [s EXCEPT !.ph = "failed", !.res = why]
Enter(s, ph) == [s EXCEPT !.ph = ph, !.t = 0]
Done(s)      == [s EXCEPT !.ph = "ready", !.res = "ok"]

\* outputs: a text, or the client's key and proof (the key is the client's choice)
Text(t) == [kind |-> "text", text |-> t]
Proof   == [kind |-> "proof", text |-> <<>>]

\* a frame "*#digits##"
Numeric(f) == LET m == Parse(f) IN /\ m.ok /\ m.type = "GENERIC" /\ Len(m.tags) = 1
                                   /\ Len(m.tags[1]) >= 2 /\ Head(m.tags[1]) = Hash
                                   /\ AllIn(Tail(m.tags[1]), Digit)
Number(f)  == Tail(Parse(f).tags[1])
Algorithm(f) == LET m == Parse(f) IN m.ok /\ m.type = "GENERIC" /\ Len(m.tags) = 2 /\ m.tags[1] = <<57, 56>>

\* the OPEN algorithm is for numbers
OpenPassword(env) == env.password # <<>> /\ AllIn(env.password, Digit)

\* the reaction to one frame: the next state and the frames sent
Frame(env, s, f) ==
  LET is(type) == Parse(f).ok /\ Parse(f).type = type
      to(n, out) == [s |-> n, out |-> out]
  IN  CASE s.ph = "ack" -> IF is("ACK") THEN to(Enter(s, "auth"), <<Text(SessionText(env))>>)
                           ELSE to(Fail(s, "auth"), <<>>)
        [] s.ph = "auth" ->
             IF is("ACK") THEN to(Done(s), <<>>)
             ELSE IF Numeric(f) /\ ~OpenPassword(env) THEN to(Fail(s, "auth"), <<>>)
             ELSE IF Numeric(f)
             THEN to(Enter(s, "open"), <<Text(FrameOf(<<<<Hash>> \o Decimal(Answer(env.bits, Number(f)))>>))>>)
             ELSE IF Algorithm(f)
             THEN IF Parse(f).tags[2] \in {<<49>>, <<50>>}
                  THEN to([Enter(s, "key") EXCEPT !.alg = Parse(f).tags[2][1] - Zero], <<Text(AckText)>>)
                  ELSE to(Fail(s, "auth"), <<Text(NackText)>>)
             ELSE to(Fail(s, "auth"), <<>>)
        [] s.ph = "open" -> IF is("ACK") THEN to(Done(s), <<>>) ELSE to(Fail(s, "auth"), <<>>)
        [] s.ph = "key" ->
             IF Numeric(f) /\ IsDigitsOfHex(Number(f))
             THEN to([Enter(s, "proof") EXCEPT !.ra = ToHex(Number(f))], <<Proof>>)
             ELSE to(Fail(s, "auth"), <<>>)
        [] s.ph = "proof" ->
             IF Numeric(f) /\ Number(f) = ToDigits(ServerProof(env, s.alg, s.ra, s.rb))
             THEN to(Done(s), <<Text(AckText)>>)
             ELSE to(Fail(s, "auth"), <<>>)
        [] OTHER -> to(s, <<>>)

Waiting(s) == s.ph \in {"ack", "auth", "open", "key", "proof"}
Elapse(s, ms) == IF ~Waiting(s) THEN s
                 ELSE IF s.t + ms >= Patience THEN Fail(s, "timeout") ELSE [s EXCEPT !.t = @ + ms]
===============================================================================
