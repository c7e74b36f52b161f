------------------------------- MODULE OwnEvents -------------------------------
(* The event system: what each frame of an event session means for the registered
   callbacks (C21, C22), when loop() ends (C23) and the items it delivers (C24).
   Anchored in pyown/client/client.py (get_item, loop, _dispatch_callbacks) and in
   call_callbacks of pyown/items/**.

   An event: [ev |-> name, vals |-> values after the item]; ev = "" means that the
   frame is not an event and no callback may be called for it.                       *)
EXTENDS OwnCatalogue, TLC
M == INSTANCE OwnMessage

Nothing == [ev |-> "", vals |-> <<>>]
E(ev, vals) == [ev |-> ev, vals |-> vals]

Number(s) == s # <<>> /\ AllIn(s, Digit)
Numbers(v, k) == Len(v) >= k /\ \A i \in 1..k : Number(v[i])
Small(s) == Number(s) /\ Len(s) <= 9
Upto(s, lo, hi) == Small(s) /\ NatVal(s) >= lo /\ NatVal(s) <= hi
Ints(v, k) == [i \in 1..k |-> IntV(v[i])]
TagBase(t) == Split(t, Hash)[1]
TagParams(t) == Tail(Split(t, Hash))
T(n) == NatText(n)

\* ---- lights: WHO 1 ----------------------------------------------------------------
\* 1000#WHAT reports the command WHAT
LightCommand(what) == IF TagBase(what) = T(1000) /\ TagParams(what) # <<>> THEN TagParams(what)[1] ELSE TagBase(what)
LightEvent(m) ==
  CASE m.type = "NORMAL" -> E("light.status", <<BoolV(LightCommand(m.what) # T(0))>>)
    [] m.type = "DIMENSION RESPONSE" ->
         LET d == TagBase(m.dim)
             v == m.values
         IN  CASE d = T(1) /\ Numbers(v, 2) -> E("light.luminosity", Ints(v, 2))
               [] d = T(2) /\ Numbers(v, 3) -> E("light.temporization", Ints(v, 3))
               [] d = T(12) /\ Numbers(v, 3) -> E("light.hsv", Ints(v, 3))
               [] d = T(14) /\ Numbers(v, 1) -> E("light.white", Ints(v, 1))
               [] OTHER -> Nothing
    [] OTHER -> Nothing

\* ---- automation and cameras: WHO 2 and 7 ---------------------------------------------
AutomationEvent(m) == IF m.type = "NORMAL" /\ m.what \in {T(0), T(1), T(2)} THEN E("automation.status", <<V("what", m.what)>>) ELSE Nothing
CameraWhats == {T(n) : n \in {0, 9, 120, 121, 130, 131, 140, 141, 150, 151, 160, 161, 170, 171, 180, 181}
                             \cup {300 + 10 * x + y : x, y \in 1..4}}
CameraEvent(m, f) == IF m.type = "NORMAL" /\ m.what \in CameraWhats THEN E("camera.status", <<V("what", m.what), V("message", f)>>) ELSE Nothing

\* ---- gateway: WHO 13; what was written is reported like a response ----------------------
TimeOk(v) == /\ Upto(v[1], 0, 23) /\ Upto(v[2], 0, 59) /\ Upto(v[3], 0, 59)
             /\ v[4] = <<>> \/ (Len(v[4]) = 3 /\ Upto(SubSeq(v[4], 1, 1), 0, 1) /\ Upto(SubSeq(v[4], 2, 3), 0, 23))
DayOk(d, mo, y) == Upto(y, 1, 9999) /\ Upto(mo, 1, 12) /\ Upto(d, 1, 31) /\ NatVal(d) <= MonthDays(NatVal(y), NatVal(mo))
Octets(v, k) == Len(v) = k /\ \A i \in 1..k : Upto(v[i], 0, 255)
GatewayEvent(m) ==
  IF m.type \notin {"DIMENSION RESPONSE", "DIMENSION WRITING"} THEN Nothing
  ELSE LET d == m.dim
           v == m.values
           version == V("str", v[1] \o <<46>> \o v[2] \o <<46>> \o v[3])
       IN  CASE d = T(0) /\ Len(v) = 4 /\ TimeOk(v) -> E("gateway.0", <<TimeOf(v)>>)
             [] d = T(1) /\ Len(v) = 4 /\ DayOk(v[2], v[3], v[4]) -> E("gateway.1", <<DateOf(v)>>)
             [] d = T(10) /\ Octets(v, 4) -> E("gateway.10", <<V("ip", Dots(v))>>)
             [] d = T(11) /\ Octets(v, 4) -> E("gateway.11", <<V("str", Dots(v))>>)
             [] d = T(12) /\ Octets(v, 6) -> E("gateway.12", <<Mac(v)>>)
             [] d = T(15) /\ Numbers(v, 1) -> E("gateway.15", <<Model(v)>>)
             [] d = T(16) /\ Numbers(v, 3) -> E("gateway.16", <<version>>)
             \* a time that is too long means nothing
             [] d = T(19) /\ Numbers(v, 4) /\ (\A i \in 1..4 : Len(v[i]) <= 8) -> E("gateway.19", <<Uptime(v)>>)
             [] d = T(22) /\ Len(v) >= 8 /\ TimeOk(v) /\ DayOk(v[6], v[7], v[8]) -> E("gateway.22", <<DateTimeOf(v)>>)
             [] d = T(23) /\ Numbers(v, 3) -> E("gateway.23", <<version>>)
             [] d = T(24) /\ Numbers(v, 3) -> E("gateway.24", <<version>>)
             [] OTHER -> Nothing

\* ---- energy: WHO 18 -----------------------------------------------------------------
EnergyWhere(w) ==
  \/ Len(w) >= 2 /\ w[1] \in {Zero + 1, Zero + 5} /\ AllIn(Tail(w), Digit)
  \/ LET b == TagBase(w)
     IN  Len(b) >= 2 /\ b[1] = Zero + 7 /\ AllIn(Tail(b), Digit) /\ TagParams(w) # <<>> /\ TagParams(w)[1] = <<Zero>>
EnergyEvent(m) ==
  IF m.type # "DIMENSION RESPONSE" \/ ~EnergyWhere(m.where) THEN Nothing
  ELSE LET d == TagBase(m.dim)
           p == TagParams(m.dim)
           v == m.values
           one(ev) == IF Numbers(v, 1) THEN E(ev, <<FloatV(v[1])>>) ELSE Nothing
           graph(ev) == IF Numbers(p, 1) /\ Numbers(v, 2) THEN E(ev, <<IntV(p[1]), IntV(v[1]), FloatV(v[2])>>) ELSE Nothing
       IN  CASE d = T(113) -> one("energy.113")
             [] d = T(51) -> one("energy.51")
             [] d = T(53) -> one("energy.53")
             [] d = T(54) -> one("energy.54")
             \* day, month, hour, energy
             [] d = T(511) /\ Numbers(p, 2) /\ Numbers(v, 2) -> E("energy.511", <<IntV(p[2]), IntV(p[1]), IntV(v[1]), FloatV(v[2])>>)
             \* month, hour or day, energy
             [] d = T(512) -> graph("energy.512")
             [] d = T(513) -> graph("energy.513")
             [] d = T(514) -> graph("energy.514")
             \* month, year, energy
             [] d = T(52) /\ Numbers(p, 2) /\ Numbers(v, 1) -> E("energy.52", <<IntV(p[2]), IntV(p[1]), FloatV(v[1])>>)
             [] d = T(250) /\ Len(v) >= 1 /\ Len(v[1]) = 13 /\ AllIn(v[1], {Zero, Zero + 1}) ->
                  E("energy.250", <<V("stopgo", [i \in 1..13 |-> v[1][14 - i]])>>)
             [] d = T(71) /\ Numbers(v, 6) -> E("energy.71", <<Actuator(v)>>)
             [] d = T(72) /\ Numbers(p, 1) /\ Len(v) >= 6 /\ Number(v[1]) /\ DayOk(v[2], v[3], v[4])
                          /\ Upto(v[5], 0, 23) /\ Upto(v[6], 0, 59) -> E("energy.72", <<IntV(p[1])>> \o TotalizerOf(v))
             [] d = T(73) /\ Numbers(v, 1) -> E("energy.73", <<IntV(v[1])>>)
             [] OTHER -> Nothing

EventOf(f) ==
  LET m == TLCEval(M!Parse(f))
  IN  IF ~m.ok THEN Nothing
      ELSE IF m.type \notin {"NORMAL", "DIMENSION RESPONSE", "DIMENSION WRITING"} THEN Nothing
      ELSE CASE m.who = T(1) -> LightEvent(m)
             [] m.who = T(2) -> AutomationEvent(m)
             [] m.who = T(7) -> CameraEvent(m, f)
             [] m.who = T(13) -> GatewayEvent(m)
             [] m.who = T(18) -> EnergyEvent(m)
             [] OTHER -> Nothing

\* ---- items (C24) -------------------------------------------------------------------
Supported == {T(1), T(2), T(7), T(13), T(18)}
ClassOf(who) == CASE who = T(1) -> "Light" [] who = T(2) -> "Automation" [] who = T(7) -> "Camera" [] who = T(13) -> "Gateway"
                  [] who = T(18) -> "EnergyManagement"
GetOutcome(who, w) == IF who \notin Supported THEN "key" ELSE IF who = T(18) /\ ~EnergyWhere(w) THEN "tag" ELSE "ok"
\* what a frame is about, if it is about an item
Named(f) == LET m == M!Parse(f) IN m.ok /\ m.type \notin {"ACK", "NACK", "GENERIC"}
KeyOf(c, f) == LET m == M!Parse(f) IN <<c, m.who, m.where>>

\* ---- the event loops -----------------------------------------------------------------
\* regs: Seq of [ev, cb, kind, d]; cl: per client [ph, at, run, bind, queue]
\* ph: "up", "ended" (dropped, lost, malformed; at: since when) or "closed"
NewClient == [ph |-> "closed", at |-> 0 - 1000, run |-> "none", bind |-> 0, queue |-> <<>>]
Fresh(n) == [regs |-> <<>>, cl |-> [c \in 1..n |-> NewClient], items |-> {}, maybe |-> {}, sleep |-> <<>>, now |-> 0]

\* the callbacks of a frame: a callback that cannot take the arguments is never entered
Hearers(s, ev) == SelectSeq(s.regs, LAMBDA r : r.ev = ev /\ r.kind # "arity")
Group(s, f) == LET e == TLCEval(EventOf(f)) IN [f |-> f, vals |-> e.vals, to |-> IF e.ev = "" THEN <<>> ELSE Hearers(s, e.ev)]
Groups(s, frames) == SelectSeq([i \in 1..Len(frames) |-> Group(s, frames[i])], LAMBDA g : g.to # <<>>)
Soon == 10
===============================================================================
