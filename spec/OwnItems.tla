-------------------------------- MODULE OwnItems --------------------------------
(* Items and the addresses that they stand for (C30).
   The WHERE table of WHO 18: 1N (N = 1..127) Stop&Go, 5N (N = 1..255) power
   meters, 7N#0 (N = 1..255) actuators.
   Anchored in pyown/items/base.py, pyown/items/energy/energy.py (get_type) and
   pyown/items/energy/stop_go.py.                                                  *)
EXTENDS OwnTags

Hashed(w) == \E i \in 1..Len(w) : w[i] = Hash
Digits(w) == w # <<>> /\ AllIn(w, Digit)
\* the shape of an energy address, whatever the number
Shape(w) ==
  IF w = <<>> THEN "NONE"
  ELSE IF w[1] = Zero + 1 /\ Digits(Tail(w)) THEN "STOP_GO"
  ELSE IF w[1] = Zero + 5 /\ Digits(Tail(w)) THEN "POWER_METER"
  ELSE IF w[1] = Zero + 7 /\ Len(Base(w)) > 1 /\ Digits(Tail(Base(w))) /\ Params(w) # <<>> /\ Params(w)[1] = <<Zero>> THEN "ACTUATOR"
  ELSE "NONE"

Documented ==
  {<<Zero + 1>> \o NatText(n) : n \in 1..127} \cup {<<Zero + 5>> \o NatText(n) : n \in 1..255}
  \cup {<<Zero + 7>> \o NatText(n) \o <<Hash, Zero>> : n \in 1..255}

Classes == {"Light", "Dimmer", "Automation", "Camera", "EnergyManagement", "StopGo", "Gateway"}
\* what becomes of an item of the class with the address w: "ok", "tag" (InvalidTag), "any" (not documented)
Made(cls, w) ==
  IF ~ValidTag(w) THEN IF cls = "Gateway" THEN "any" ELSE "tag"
  ELSE IF cls \notin {"EnergyManagement", "StopGo"} THEN "ok"
  ELSE IF w \in Documented THEN IF cls = "StopGo" /\ Shape(w) # "STOP_GO" THEN "tag" ELSE "ok"
  ELSE IF Shape(w) = "NONE" THEN "tag" ELSE "any"
\* the gateway has no address
AddressOf(cls, w) == IF cls = "Gateway" THEN <<>> ELSE w
KindOf(w) == Shape(w)
===============================================================================
