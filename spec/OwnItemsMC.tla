------------------------------- MODULE OwnItemsMC -------------------------------
(* Every text over a small alphabet, and an item whose client is replaced.         *)
EXTENDS OwnItems
CONSTANTS Alphabet, MaxLen, Clients
VARIABLES w, cls, client
vars == <<w, cls, client>>
Init == w = <<>> /\ cls \in Classes /\ client \in Clients
Grow == Len(w) < MaxLen /\ \E c \in Alphabet : w' = Append(w, c) /\ UNCHANGED <<cls, client>>
Assign == \E c \in Clients : client' = c /\ UNCHANGED <<w, cls>>
Next == Grow \/ Assign
Spec == Init /\ [][Next]_vars
\* an address has one kind, and only addresses of a kind make items
OneKind == Shape(w) # "NONE" => w[1] = (CASE Shape(w) = "STOP_GO" -> Zero + 1 [] Shape(w) = "POWER_METER" -> Zero + 5 [] OTHER -> Zero + 7)
Narrower == Made("StopGo", w) = "ok" => Made("EnergyManagement", w) = "ok" /\ Shape(w) = "STOP_GO"
NoneLost == Made("EnergyManagement", w) = "tag" => w \notin Documented
Addressed == Made(cls, w) = "ok" => ValidTag(AddressOf(cls, w))
ASSUME \A d \in Documented : ValidTag(d) /\ Shape(d) # "NONE"
ASSUME Cardinality(Documented) = 127 + 255 + 255
===============================================================================
