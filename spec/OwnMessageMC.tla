----------------------------- MODULE OwnMessageMC -----------------------------
(* Exhaustive exploration of the message grammar: every text over an alphabet up
   to a length, and every message built from small tags.                        *)
EXTENDS OwnMessage, TLC
MCTags == {<<>>, <<49>>, <<48, 50>>, <<49, 35, 50>>, <<35, 51>>, <<53, 35, 35 + 13>>}
CONSTANTS Alphabet, MaxLen, TagTexts, MaxValues
VARIABLES text, built
vars == <<text, built>>

Tags(n) == UNION {[1..k -> TagTexts] : k \in 0..n}
Whos == {<<49>>, <<49, 56>>}      \* WHO 1 and 18

Build(m) == (WellBuilt(m) = TRUE) /\ built = m /\ text = Render(m)

Init == \/ text = <<>> /\ built = Rejected
        \/ \E m \in {Ack, Nack} : Build(m)
        \/ \E w \in Whos, a \in TagTexts : Build(Status(w, a))
        \/ \E w \in Whos, a \in TagTexts, b \in TagTexts : Build(Normal(w, a, b)) \/ Build(DimReq(w, a, b))
        \/ \E w \in Whos, a \in TagTexts, d \in TagTexts, v \in Tags(MaxValues) :
              Build(DimWrite(w, a, d, v)) \/ Build(DimResp(w, a, d, v))
        \/ \E t \in Tags(3) \ {<<>>} : Build(Generic(t))
Next == /\ ~built.ok
        /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c)
        /\ UNCHANGED built
Spec == Init /\ [][Next]_vars

\* every accepted text renders back to itself
RoundTripText == ~built.ok => LET m == Parse(text) IN m.ok => Render(m) = Strip(text)
\* every built message parses back to itself
RoundTripMessage == built.ok => Parse(text) = built
\* a built message is exactly one frame
OneFrame == built.ok => IsFrame(text) /\ ~HasTerminator(Take(text, Len(text) - 1))
\* classification is total and agrees with the syntax of each class
TypeShape ==
  LET m == Parse(text) IN
  m.ok =>
    /\ m.type \in {"ACK", "NACK", "NORMAL", "STATUS REQUEST", "DIMENSION REQUEST", "DIMENSION WRITING",
                   "DIMENSION RESPONSE", "GENERIC"}
    /\ m.type \in {"NORMAL", "STATUS REQUEST", "DIMENSION REQUEST", "DIMENSION WRITING", "DIMENSION RESPONSE"}
         => m.who \in WhoCode
    /\ \A i \in 1..Len(m.tags) : ValidTag(m.tags[i])
\* a text with a character outside the alphabet of frames is rejected
Garbage == (\E i \in 1..Len(text) : text[i] \notin BodyChar \cup Blank) => ~Parse(text).ok
===============================================================================
