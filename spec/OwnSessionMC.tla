----------------------------- MODULE OwnSessionMC -----------------------------
(* A client against a gateway that may do anything: every sequence of frames,
   packets of two frames, waits and drops.  The hash is an injective function
   (the identity on hexadecimal text), so what TLC shows about proofs holds for
   any hash without collisions.

   The gateway is also the adversary of C11: it knows the password only if
   `honest`, otherwise it can only send proofs it has seen (its own old ones for
   another client key, the client's, truncated ones) or made with another password. *)
EXTENDS OwnSession, TLC, Json
CONSTANTS Printing, Packets2
IdSha(env, alg, text) == text

VARIABLES cl, sent, script, down, honest, slow, used
vars == <<cl, sent, script, down, honest, slow, used>>

env == [session |-> <<57>>, password |-> <<49, 50, 51>>,
        bits |-> [i \in 1..32 |-> IF i \in {26, 27, 28, 29, 31, 32} THEN 1 ELSE 0]]
RbOf(s)  == <<97, 98>>         \* the fresh key of this session ("ab"), never used before
OldRb    == <<99, 100>>        \* the key of an earlier session
RaHex    == <<48, 49>>

Simple == {"ack", "nack", "nonce", "sha1", "sha2", "sha3", "event", "response", "key"}
Proofs == {"good", "wrongpw", "replay", "echo", "trunc", "longer"}
Kinds  == Simple \cup Proofs

TextOf(kind, s) ==
  LET good == ToDigits(ServerProof(env, s.alg, s.ra, s.rb))
  IN  CASE kind = "ack" -> AckText
        [] kind = "nack" -> NackText
        [] kind = "nonce" -> FrameOf(<<<<Hash, 54, 48, 51>>>>)
        [] kind = "sha1" -> FrameOf(<<<<57, 56>>, <<49>>>>)
        [] kind = "sha2" -> FrameOf(<<<<57, 56>>, <<50>>>>)
        [] kind = "sha3" -> FrameOf(<<<<57, 56>>, <<51>>>>)
        [] kind = "event" -> FrameOf(<<<<49>>, <<49>>, <<49, 49>>>>)
        [] kind = "response" -> FrameOf(<<<<Hash, 49, 51>>, <<>>, <<49, 53>>, <<50>>>>)
        [] kind = "key" -> FrameOf(<<<<Hash>> \o ToDigits(RaHex)>>)
        [] kind = "good" -> FrameOf(<<<<Hash>> \o good>>)
        [] kind = "wrongpw" -> FrameOf(<<<<Hash>> \o ToDigits(ServerProof([env EXCEPT !.password = <<57>>], s.alg, s.ra, s.rb))>>)
        [] kind = "replay" -> FrameOf(<<<<Hash>> \o ToDigits(ServerProof(env, s.alg, s.ra, OldRb))>>)
        [] kind = "echo" -> FrameOf(<<<<Hash>> \o ToDigits(ClientProof(env, s.alg, s.ra, s.rb))>>)
        [] kind = "trunc" -> FrameOf(<<<<Hash>> \o Take(good, Len(good) - 2)>>)
        [] kind = "longer" -> FrameOf(<<<<Hash>> \o good \o <<48, 49>>>>)

Init == /\ cl = Began /\ sent = <<>> /\ script = <<>> /\ down = FALSE /\ slow = 0 /\ used = <<>>
        /\ honest \in BOOLEAN

\* the frames of one packet, one after the other
One(s, kind) == LET r == Frame(env, s, TextOf(kind, s))
                IN  [s |-> IF r.s.ph = "proof" /\ s.ph = "key" THEN [r.s EXCEPT !.rb = RbOf(s)] ELSE r.s, out |-> r.out]

Send(kinds) ==
  LET r == FoldLeft(LAMBDA a, k : LET x == One(a.s, k) IN [s |-> x.s, out |-> a.out \o x.out],
                    [s |-> cl, out |-> <<>>], kinds)
  IN  /\ Waiting(cl) /\ ~down
      /\ cl' = r.s
      /\ sent' = sent \o r.out
      /\ used' = used \o kinds
      /\ script' = Append(script, [in |-> "frames", kinds |-> kinds, ms |-> 0])
      /\ UNCHANGED <<down, honest, slow>>

Known == IF honest THEN Kinds ELSE Kinds \ {"good"}
Applicable(k, s) == k \in Proofs => s.ph = "proof"

Next ==
  \/ \E k \in Known : Applicable(k, cl) /\ Send(<<k>>)
  \/ /\ Packets2 /\ honest
     /\ \E a \in {"ack", "nonce", "sha1", "key"} : \E b \in Simple : Send(<<a, b>>)
  \/ /\ Waiting(cl) /\ slow < 1 /\ ~down
     /\ cl' = Elapse(cl, 4990) /\ slow' = slow + 1
     /\ script' = Append(script, [in |-> "elapse", kinds |-> <<>>, ms |-> 4990])
     /\ UNCHANGED <<sent, down, honest, used>>
  \/ /\ Waiting(cl)
     /\ cl' = Elapse(cl, 5010)
     /\ script' = Append(script, [in |-> "elapse", kinds |-> <<>>, ms |-> 5010])
     /\ UNCHANGED <<sent, down, honest, slow, used>>
  \/ /\ Waiting(cl) /\ ~down
     /\ down' = TRUE
     /\ script' = Append(script, [in |-> "drop", kinds |-> <<>>, ms |-> 0])
     /\ UNCHANGED <<cl, sent, honest, slow, used>>
  \/ /\ ~Waiting(cl) /\ Printing /\ honest /\ script # <<>>
     /\ PrintT(ToJson([k |-> "script", steps |-> script]))
     /\ script' = <<>>
     /\ UNCHANGED <<cl, sent, down, honest, slow, used>>
Spec == Init /\ [][Next]_vars

\* ---- properties ------------------------------------------------------------------
\* success only after the documented conversations
Accepted == cl.res = "ok" => \/ Take(used, 2) = <<"ack", "ack">>
                             \/ Take(used, 3) \in {<<"ack", "nonce", "ack">>, <<"ack", "key", "ack">>}
                             \/ Take(used, 4) \in {<<"ack", "sha1", "key", "good">>}
                             \/ Take(used, 4) \in {<<"ack", "sha2", "key", "good">>}
\* a gateway that does not know the password is never accepted with HMAC
Mutual == ~honest /\ cl.alg # 0 => cl.res # "ok"
\* the client never speaks first: at most one frame for each frame received
NoEarlySend == Len(sent) <= Len(used)
FirstFrame  == sent # <<>> => sent[1] = Text(SessionText(env))
\* NACK is only sent for an unknown algorithm
NackOnly == \A i \in 1..Len(sent) : sent[i] = Text(NackText) => i = 2 /\ used[2] = "sha3"
\* the confirmation is only sent after a good proof
ConfirmOnly == Len(sent) = 4 => used[4] = "good" /\ cl.res = "ok"
\* no success after a drop, and every wait ends
Ends == cl.res \in {"pending", "ok", "auth", "timeout"} /\ (Waiting(cl) => cl.t < Patience)
Absorbing == [][cl.res # "pending" => cl' = cl]_vars
===============================================================================
