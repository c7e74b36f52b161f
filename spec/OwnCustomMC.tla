------------------------------ MODULE OwnCustomMC ------------------------------
(* Every small item and call, and what a gateway that reads the frame makes of it.       *)
EXTENDS OwnCustom, TLC
CONSTANTS TagTexts, MaxValues
MCTags == {<<>>, <<49>>, <<48, 50>>, <<49, 35, 50>>, <<35, 51>>, <<53, 35, 48, 35, 57>>, <<49, 50, 48, 48, 35, 49>>}
VARIABLES item, call
vars == <<item, call>>

Whos == {<<49>>, <<49, 56>>, <<49, 48, 48, 52>>}
Tags(n) == UNION {[1..k -> TagTexts] : k \in 0..n}
Init == /\ item \in [who : Whos, where : TagTexts]
        /\ \/ call \in [m : {"normal", "request"}, tag : TagTexts, values : {<<>>}]
           \/ call \in [m : {"status"}, tag : {Absent}, values : {<<>>}]
           \/ call \in [m : {"writing"}, tag : TagTexts, values : Tags(MaxValues)]
        /\ WellBuilt(MessageOf(item, call))
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* the gateway sees one frame, of the kind meant, for this item, with what was given
Faithful == LET t == Render(MessageOf(item, call))
                m == Parse(t)
            IN  /\ IsFrame(t)
                /\ m = MessageOf(item, call)
                /\ m.who = item.who /\ m.where = item.where
                /\ m.values = call.values
                /\ (call.m = "normal" => m.what = call.tag)
                /\ (call.m \in {"request", "writing"} => m.dim = call.tag)
===============================================================================
