------------------------------ MODULE OwnSecretMC ------------------------------
(* Several sessions with a gateway that chooses the nonces and server keys freely (also
   what it has seen before), and an observer who sees every frame.                       *)
EXTENDS OwnSecret, TLC
CONSTANTS Sessions
VARIABLES known, n, ph, ra
vars == <<known, n, ph, ra>>

Own == {Atom("guess"), Atom("nonce"), Atom("A"), Atom("B")}
Rb(i) == Atom("rb" \o ToString(i))
Terms(ts) == {ts[i] : i \in 1..Len(ts)}
Init == known = Own /\ n = 1 /\ ph = "announce" /\ ra = Atom("")
Say(p, next) == /\ known' = known \cup Terms(Says(p, ra, Rb(n)))
                /\ ph' = next
Next ==
  \/ ph = "announce" /\ Say("announce", "asked") /\ UNCHANGED <<n, ra>>
  \/ ph = "asked" /\ \E t \in known : ra' = t /\ ph' \in {"open", "accept", "refuse"} /\ UNCHANGED <<known, n>>
  \/ ph = "open" /\ Say("open", "over") /\ UNCHANGED <<n, ra>>
  \/ ph = "accept" /\ Say("accept", "proof") /\ UNCHANGED <<n, ra>>
  \/ ph = "proof" /\ Say("proof", "over") /\ UNCHANGED <<n, ra>>
  \/ ph = "refuse" /\ Say("refuse", "over") /\ UNCHANGED <<n, ra>>
  \/ ph = "over" /\ n < Sessions /\ n' = n + 1 /\ ph' = "announce" /\ UNCHANGED <<known, ra>>
Spec == Init /\ [][Next]_vars

Secret == \A s \in Secrets : ~Derives(known, s)
===============================================================================
