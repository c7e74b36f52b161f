-------------------------------- MODULE OwnTags --------------------------------
(* Tags: decomposition, comparison, the WHERE table, the WHO table and the
   decimal encoding of hexadecimal text.  Anchored in pyown/tags/*.py,
   pyown/auth/hmac.py, docs/original/intro.md, who1.md and hmac.md.             *)
EXTENDS OwnMessage

\* ---- parametrised tags (C06) ----------------------------------------------------
Base(t)   == Split(t, Hash)[1]
Params(t) == Tail(Split(t, Hash))
WithParam(t, p) == t \o <<Hash>> \o p

\* ---- WHO (C06): the documented members of Who ------------------------------------
WhoTable ==
  [SCENE |-> 0, LIGHTING |-> 1, AUTOMATION |-> 2, LOAD_CONTROL |-> 3, THERMOREGULATION |-> 4,
   BURGLAR_ALARM |-> 5, DOOR_ENTRY_SYSTEM |-> 6, VIDEO_DOOR_ENTRY |-> 7, AUXILIARY |-> 8,
   GATEWAY |-> 13, ACTUATORS_LOCKS |-> 14, CEN_1 |-> 15, SOUND_DIFFUSION_1 |-> 16,
   MH200N_SCENE |-> 17, ENERGY_MANAGEMENT |-> 18, SOUND_DIFFUSION_2 |-> 22,
   LIGHTING_MANAGEMENT |-> 24, CEN_2 |-> 25, AUTOMATION_DIAGNOSTICS |-> 1001,
   THERMOREGULATION_DIAGNOSTICS |-> 1004, DEVICE_DIAGNOSTICS |-> 1013, ENERGY_DIAGNOSTICS |-> 1018]

\* ---- WHERE (C07): the table of docs/original/who1.md -----------------------------
Two(a, b) == Pad(a, 2) \o Pad(b, 2)
General   == {<<48>>}
Areas     == {<<48, 48>>, NatText(100)} \cup {NatText(a) : a \in 1..9}
Points    == {Two(0, pl) : pl \in 1..15}
             \cup {NatText(a * 10 + pl) : a \in 1..9, pl \in 1..9}
             \cup {Two(10, pl) : pl \in 1..15}
             \cup {Two(a, pl) : a \in 1..9, pl \in 10..15}
Groups    == {<<Hash>> \o NatText(g) : g \in 1..255}
Addresses == General \cup Areas \cup Points \cup Groups

Interfaces == {Pad(i, 2) : i \in 1..15} \cup {NatText(i) : i \in 1..9}
LocalBus(t, i) == t \o <<Hash, 52, Hash>> \o i

BaseKind(t) == IF t \in General THEN "GENERAL" ELSE IF t \in Areas THEN "AMBIENT"
               ELSE IF t \in Points THEN "LIGHT_POINT" ELSE IF t \in Groups THEN "GROUP" ELSE "NONE"

\* the suffix "#4#I" of an address, if it has one
Suffixed(t)  == \E i \in Interfaces : EndsWith(t, LocalBus(<<>>, i))
Stem(t)      == LET i == CHOOSE i \in Interfaces : EndsWith(t, LocalBus(<<>>, i))
                IN  Take(t, Len(t) - Len(LocalBus(<<>>, i)))
Kind(t) ==
  IF t \in Addresses THEN BaseKind(t)
  ELSE IF Suffixed(t) THEN (IF Stem(t) \in General \cup {<<>>} THEN "LOCAL_BUS" ELSE BaseKind(Stem(t)))
  ELSE "NONE"

\* ---- hexadecimal text as decimal digits (C09) ------------------------------------
HexVal(c) == IF c \in Digit THEN c - Zero
             ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 16
HexChar(v) == IF v < 10 THEN Zero + v ELSE 87 + v
IsHex(s)  == \A i \in 1..Len(s) : HexVal(s[i]) < 16
Lower(s)  == [i \in 1..Len(s) |-> HexChar(HexVal(s[i]))]
ToDigits(s) == Cat([i \in 1..Len(s) |-> Pad(HexVal(s[i]), 2)])
PairVal(d, i) == (d[2 * i - 1] - Zero) * 10 + (d[2 * i] - Zero)
IsDigitsOfHex(d) == /\ Len(d) % 2 = 0
                    /\ AllIn(d, Digit)
                    /\ \A i \in 1..(Len(d) \div 2) : PairVal(d, i) < 16
ToHex(d) == [i \in 1..(Len(d) \div 2) |-> HexChar(PairVal(d, i))]
===============================================================================
