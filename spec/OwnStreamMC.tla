------------------------------ MODULE OwnStreamMC ------------------------------
(* Every stream over an alphabet, cut into packets in every way.                 *)
EXTENDS OwnStream, TLC, Json
CONSTANTS Alphabet, MaxLen, MaxPacket, Script, BadOneIn
VARIABLES st, sent, delivered, packets, lost
vars == <<st, sent, delivered, packets, lost>>

Packets == UNION {[1..n -> Alphabet] : n \in 1..MaxPacket}

Init == st = Start /\ sent = <<>> /\ delivered = <<>> /\ packets = <<>> /\ lost = FALSE
Receive(p) ==
  /\ Len(sent) + Len(p) <= MaxLen
  /\ LET s == Packet(st, p)
     IN  /\ st' = s
         /\ sent' = IF s.dead = "no" THEN sent \o p ELSE <<>>     \* since the last malformed packet
         /\ delivered' = IF s.dead = "no" THEN delivered \o s.out ELSE <<>>
         /\ lost' = (s.dead # "no")
  /\ packets' = IF Script THEN Append(packets, p) ELSE packets
Next == \E p \in Packets : Receive(p)
Spec == Init /\ [][Next]_vars

Known == st.q # "open"
\* whatever the packets, the deliveries are the frames of the stream and nothing is lost
Segmentation == Known => delivered = FramesOf(sent) /\ st.part = RestOf(sent)
\* every delivery is one frame that the message grammar accepts (or ends in '###')
Complete == \A i \in 1..Len(delivered) : IsFrame(delivered[i]) \/ Ambiguous(delivered[i])
\* an incomplete frame never contains a terminator
Pending == ~HasTerminator(st.part)
\* the arithmetic that judges long streams agrees with the byte automaton
RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN <<>> ELSE Append(Blanks(n - 1), 32)
BulkAgrees ==
  \A fs \in {<<a, b, c>> : a, b, c \in {<<42, 35, 42, 49, 35, 35>>, <<42, 49, 42, 48, 42, 50, 35, 35>>}} :
    \A g \in [1..3 -> 0..1] :
      LET data == Cat([i \in 1..3 |-> fs[i] \o Blanks(g[i])])
          es == Ends([i \in 1..3 |-> Len(fs[i])], g)
      IN  \A p \in 0..Len(data) : Packet(Start, Take(data, p)).out = Take(fs, Completed(es, p))
ASSUME BulkAgrees
\* behaviours for replay in the real code
\* (mostly bytes that continue a frame, one in BadOneIn anything)
Likely(q) == CASE q = "idle" -> {42} [] q = "body" -> {49, 42, 35, 50} [] q = "hash" -> {35, 49} [] OTHER -> {42}
Some(q) == IF BadOneIn > 0 /\ RandomElement(1..Max2(1, BadOneIn)) = 1 THEN RandomElement(Alphabet)
           ELSE IF q = "idle" /\ RandomElement(1..6) = 1 THEN 32 ELSE RandomElement(Likely(q))
RECURSIVE Walk(_, _, _)
Walk(s, n, acc) == IF n = 0 THEN acc
                   ELSE LET b == Some(s.q) IN Walk(Byte1([s EXCEPT !.dead = "no"], b), n - 1, Append(acc, b))
GenStep == IF Len(packets) < 9
           THEN \E n \in 1..MaxPacket : \E p \in {Walk(st, n, <<>>)} : Receive(p)
           ELSE /\ packets # <<>>
                /\ PrintT(ToJson([k |-> "script", packets |-> packets]))
                /\ packets' = <<>> /\ UNCHANGED <<st, sent, delivered, lost>>
GenSpec == Init /\ [][GenStep]_vars

\* a malformed packet leaves nothing behind
Contained == lost => st.part = <<>> /\ st.q = "idle"
===============================================================================
