------------------------------ MODULE OwnCatalogue ------------------------------
(* What each method of the items puts on the wire (C18, C20) and what its responses
   mean (C19), from the WHO 1, 2, 7, 13 and 18 documents (docs/original).
   Anchored in pyown/items/**.

   A call: [cls, m, w (codes of the WHERE), a (numbers, None for absent), now (dates)].
   Its outcome: <<>> when the arguments are refused, otherwise the set of frames it may send.
   Values of responses: [t |-> kind, x |-> codes of the text].                         *)
EXTENDS OwnText, OwnClock

None == -999999

\* ---- frames --------------------------------------------------------------------
Params(ps) == Cat([i \in 1..Len(ps) |-> <<Hash>> \o NatText(ps[i])])
Action(who, what, ps, w) == <<Star>> \o NatText(who) \o <<Star>> \o NatText(what) \o Params(ps) \o <<Star>> \o w \o <<Hash, Hash>>
Bare(who, what)          == <<Star>> \o NatText(who) \o <<Star>> \o NatText(what) \o <<Hash, Hash>>
StatusReq(who, w)        == <<Star, Hash>> \o NatText(who) \o <<Star>> \o w \o <<Hash, Hash>>
DimReq(who, w, dim, ps)  == <<Star, Hash>> \o NatText(who) \o <<Star>> \o w \o <<Star>> \o NatText(dim) \o Params(ps) \o <<Hash, Hash>>
Writing(who, w, dim, ps, vs) ==
  <<Star, Hash>> \o NatText(who) \o <<Star>> \o w \o <<Star, Hash>> \o NatText(dim) \o Params(ps) \o Prefixed(Star, vs) \o <<Hash, Hash>>
Nats(ns) == [i \in 1..Len(ns) |-> NatText(ns[i])]

Who(cls) == CASE cls \in {"Light", "Dimmer"} -> 1 [] cls = "Automation" -> 2 [] cls = "Camera" -> 7
              [] cls \in {"EnergyManagement", "StopGo"} -> 18 [] cls = "Gateway" -> 13

Wrong == [ok |-> FALSE, fs |-> {}]
Sends(f) == [ok |-> TRUE, fs |-> {f}]
OneOf(fs) == [ok |-> TRUE, fs |-> fs]
In(n, lo, hi) == n >= lo /\ n <= hi
OptIn(n, lo, hi) == n = None \/ In(n, lo, hi)
Given(ns) == SelectSeq(ns, LAMBDA n : n # None)

\* ---- lights ---------------------------------------------------------------------
LightWhat(m) ==
  CASE m = "turn_on_1_min" -> 11 [] m = "turn_on_2_min" -> 12 [] m = "turn_on_3_min" -> 13 [] m = "turn_on_4_min" -> 14
    [] m = "turn_on_5_min" -> 15 [] m = "turn_on_15_min" -> 16 [] m = "turn_on_0_5_sec" -> 18
    [] m = "blink_0_5_sec" -> 20 [] m = "blink_1_0_sec" -> 21 [] m = "blink_1_5_sec" -> 22 [] m = "blink_2_0_sec" -> 23
    [] m = "blink_2_5_sec" -> 24 [] m = "blink_3_0_sec" -> 25 [] m = "blink_3_5_sec" -> 26 [] m = "blink_4_0_sec" -> 27
    [] m = "blink_4_5_sec" -> 28 [] m = "blink_5_0_sec" -> 29
    [] m = "set_20_percent" -> 2 [] m = "set_30_percent" -> 3 [] m = "set_40_percent" -> 4 [] m = "set_50_percent" -> 5
    [] m = "set_60_percent" -> 6 [] m = "set_70_percent" -> 7 [] m = "set_80_percent" -> 8 [] m = "set_90_percent" -> 9
    [] m = "set_100_percent" -> 10
    [] OTHER -> None
LightDim(m) ==
  CASE m = "temporization_request" -> 2 [] m = "request_working_time_lamp" -> 8 [] m = "request_current_brightness_speed" -> 1
    [] m = "request_current_hsv" -> 12 [] m = "request_current_white_temperature" -> 14 [] OTHER -> None
LightCall(c) ==
  LET m == c.m
      a == c.a
      w == c.w
  IN  CASE m \in {"turn_on", "turn_off"} ->
             LET speed == IF a = <<>> THEN None ELSE a[1]
             IN  IF OptIn(speed, 0, 255) THEN Sends(Action(1, IF m = "turn_on" THEN 1 ELSE 0, Given(<<speed>>), w)) ELSE Wrong
        [] m \in {"up_percent", "down_percent"} ->
             LET what == IF m = "up_percent" THEN 30 ELSE 31
                 level == IF a[1] = None /\ a[2] # None THEN 1 ELSE a[1]
             IN  IF OptIn(a[1], 0, 100) /\ OptIn(a[2], 0, 255) THEN Sends(Action(1, what, Given(<<level, a[2]>>), w)) ELSE Wrong
        [] m = "temporization_command" ->
             IF In(a[1], 0, 23) /\ In(a[2], 0, 59) /\ In(a[3], 0, 59) THEN Sends(Writing(1, w, 2, <<>>, Nats(a))) ELSE Wrong
        [] m = "set_hsv" ->
             IF In(a[1], 0, 359) /\ In(a[2], 0, 100) /\ In(a[3], 0, 100) THEN Sends(Writing(1, w, 12, <<>>, Nats(a))) ELSE Wrong
        [] m = "set_white_temperature" -> IF In(a[1], 1, 65534) THEN Sends(Writing(1, w, 14, <<>>, Nats(a))) ELSE Wrong
        [] m = "set_brightness_with_speed" -> Sends(Writing(1, w, 1, <<>>, Nats(a)))
        [] m = "turn_on_30_min" -> Sends(Writing(1, w, 2, <<>>, Nats(<<0, 30, 0>>)))
        [] m = "get_status" -> Sends(StatusReq(1, w))
        [] LightDim(m) # None -> Sends(DimReq(1, w, LightDim(m), <<>>))
        [] OTHER -> Sends(Action(1, LightWhat(m), <<>>, w))
\* What = 17 is documented as "ON timed 30 sec"
ThirtySeconds(c) == Action(1, 17, <<>>, c.w)

\* ---- automation and cameras --------------------------------------------------------
AutomationCall(c) == IF c.m = "get_status" THEN Sends(StatusReq(2, c.w))
                     ELSE Sends(Action(2, CASE c.m = "stop" -> 0 [] c.m = "up" -> 1 [] c.m = "down" -> 2, <<>>, c.w))
CameraWhat(m) ==
  CASE m = "free_resources" -> 9 [] m = "zoom_in" -> 120 [] m = "zoom_out" -> 121
    [] m = "increase_x_coordinate" -> 130 [] m = "decrease_x_coordinate" -> 131
    [] m = "increase_y_coordinate" -> 140 [] m = "decrease_y_coordinate" -> 141
    [] m = "increase_luminosity" -> 150 [] m = "decrease_luminosity" -> 151
    [] m = "increase_contrast" -> 160 [] m = "decrease_contrast" -> 161
    [] m = "increase_color" -> 170 [] m = "decrease_color" -> 171
    [] m = "increase_quality" -> 180 [] m = "decrease_quality" -> 181
CameraCall(c) ==
  CASE c.m = "receive_video" -> Sends(Action(7, 0, <<>>, c.w))
    [] c.m = "display_dial" -> IF In(c.a[1], 1, 4) /\ In(c.a[2], 1, 4) THEN Sends(Bare(7, 300 + 10 * c.a[1] + c.a[2])) ELSE Wrong
    [] OTHER -> Sends(Bare(7, CameraWhat(c.m)))

\* ---- energy ----------------------------------------------------------------------
Days(c, n)   == IF n # None THEN {n} ELSE {c.now[i][3] : i \in 1..Len(c.now)}
Months(c, n) == IF n # None THEN {n} ELSE {c.now[i][2] : i \in 1..Len(c.now)}
Years(c, n)  == IF n # None THEN {n} ELSE {c.now[i][1] % 100 : i \in 1..Len(c.now)}
EnergyDim(m) ==
  CASE m = "get_active_power" -> 113 [] m = "get_energy_unit_totalizer" -> 51 [] m = "get_partial_totalizer_current_month" -> 53
    [] m = "get_partial_totalizer_current_day" -> 54 [] m = "get_actuators_info" -> 71 [] m = "get_differential_current_level" -> 73
    [] OTHER -> None
EnergyCall(c) ==
  LET m == c.m
      a == c.a
      w == c.w
  IN  CASE m = "start_sending_daily_totalizers_hourly" -> OneOf({Action(18, 57, <<mo, d>>, w) : mo \in Months(c, a[2]), d \in Days(c, a[1])})
        [] m = "start_sending_monthly_average_hourly" -> OneOf({Action(18, 58, <<mo>>, w) : mo \in Months(c, a[1])})
        [] m = "start_sending_monthly_totalizers_current_year" -> OneOf({Action(18, 59, <<mo>>, w) : mo \in Months(c, a[1])})
        [] m = "start_sending_monthly_totalizers_last_year" -> OneOf({Action(18, 510, <<mo>>, w) : mo \in Months(c, a[1])})
        [] m = "enable_actuator" -> Sends(Action(18, 71, <<>>, w))
        [] m = "force_actuator_on" -> Sends(Action(18, 73, Given(a), w))
        [] m = "force_actuator_off" -> Sends(Action(18, 74, <<>>, w))
        [] m = "reset_totalizers" -> Sends(Action(18, 75, a, w))
        [] m = "enable_automatic_reset" -> Sends(Action(18, 26, <<>>, w))
        [] m = "disable_automatic_reset" -> Sends(Action(18, 27, <<>>, w))
        [] m = "start_sending_instant_power" -> Sends(Writing(18, w, 1200, <<IF Len(a) = 1 THEN 1 ELSE a[2]>>, Nats(<<a[1]>>)))
        [] m = "stop_sending_instant_power" -> Sends(Writing(18, w, 1200, <<IF a = <<>> THEN 1 ELSE a[1]>>, Nats(<<0>>)))
        [] m = "get_energy_unit_per_month" -> OneOf({DimReq(18, w, 52, <<y, mo>>) : y \in Years(c, a[2]), mo \in Months(c, a[1])})
        [] m = "get_totalizers" -> Sends(DimReq(18, w, 72, a))
        [] m = "request_status" -> Sends(DimReq(18, w, IF a = <<>> THEN 250 ELSE a[1], <<>>))
        [] OTHER -> Sends(DimReq(18, w, EnergyDim(m), <<>>))

\* ---- gateway ---------------------------------------------------------------------
GatewayDim(m) ==
  CASE m = "get_time" -> 0 [] m = "get_date" -> 1 [] m = "get_ip" -> 10 [] m = "get_netmask" -> 11 [] m = "get_macaddress" -> 12
    [] m = "get_model" -> 15 [] m = "get_firmware" -> 16 [] m = "get_uptime" -> 19 [] m = "get_datetime" -> 22
    [] m = "get_kernel_version" -> 23 [] m = "get_distribution_version" -> 24
\* a: hour minute second zone (hours, None: no timezone) for a time, day month year for a date
Zone(z) == <<Zero + (IF z < 0 THEN 1 ELSE 0)>> \o Pad(IF z < 0 THEN 0 - z ELSE z, 2)
TimeValues(a) == <<Pad(a[1], 2), Pad(a[2], 2), Pad(a[3], 2), Zone(a[4])>>
DateValues(d, mo, y) == <<Pad(Weekday(y, mo, d), 2), Pad(d, 2), Pad(mo, 2), NatText(y)>>
GatewayCall(c) ==
  LET a == c.a
  IN  CASE c.m = "set_time" -> IF a[4] = None THEN Wrong ELSE Sends(Writing(13, <<>>, 0, <<>>, TimeValues(a)))
        [] c.m = "set_date" -> Sends(Writing(13, <<>>, 1, <<>>, DateValues(a[1], a[2], a[3])))
        [] c.m = "set_datetime" -> IF a[4] = None THEN Wrong
                                   ELSE Sends(Writing(13, <<>>, 22, <<>>, TimeValues(a) \o DateValues(a[5], a[6], a[7])))
        [] OTHER -> Sends(DimReq(13, <<>>, GatewayDim(c.m), <<>>))

Call(c) == CASE Who(c.cls) = 1 -> LightCall(c) [] Who(c.cls) = 2 -> AutomationCall(c) [] Who(c.cls) = 7 -> CameraCall(c)
             [] Who(c.cls) = 13 -> GatewayCall(c) [] Who(c.cls) = 18 -> EnergyCall(c)

\* ---- the meaning of responses -------------------------------------------------------
\* tags of a frame: *a*b*c##
Tags(f) == Split(SubSeq(f, 2, Len(f) - 2), Star)
RespWhere(f) == IF Tags(f)[1][1] = Hash THEN Tags(f)[2] ELSE Tags(f)[3]
Values(f) == SubSeq(Tags(f), 4, Len(Tags(f)))
RespDim(f) == Split(Tags(f)[3], Hash)[1]
RespParams(f) == Tail(Split(Tags(f)[3], Hash))

\* the decimal text of a number without leading zeros
Plain(s) == LET nz == {i \in 1..Len(s) : s[i] # Zero}
            IN  IF nz = {} THEN <<Zero>> ELSE SubSeq(s, CHOOSE i \in nz : \A j \in nz : i <= j, Len(s))
V(t, x) == [t |-> t, x |-> x]
IntV(s) == V("int", Plain(s))
FloatV(s) == V("float", Plain(s))
BoolV(b) == V("bool", NatText(IF b THEN 1 ELSE 0))
WhereV(w) == V("where", w)
Dots(vs) == Join(46, [i \in 1..Len(vs) |-> Plain(vs[i])])
Signed(n) == IF n < 0 THEN <<45>> \o NatText(0 - n) ELSE NatText(n)
Fields(ns) == Join(32, [i \in 1..Len(ns) |-> Signed(ns[i])])

\* the UTC offset in hours of a time zone value
ZoneHours(z) == IF z = <<>> THEN 0 ELSE (IF z[1] = Zero THEN 1 ELSE -1) * NatVal(SubSeq(z, 2, 3))
TimeOf(v) == V("time", Fields(<<NatVal(v[1]), NatVal(v[2]), NatVal(v[3]), ZoneHours(v[4]) * 60>>))
DateOf(v) == V("date", Fields(<<NatVal(v[4]), NatVal(v[3]), NatVal(v[2])>>))
DateTimeOf(v) == V("datetime", Fields(<<NatVal(v[8]), NatVal(v[7]), NatVal(v[6]), NatVal(v[1]), NatVal(v[2]), NatVal(v[3]), ZoneHours(v[4]) * 60>>))

HexDigit(n) == IF n < 10 THEN Zero + n ELSE 65 + n - 10
Hex2(n) == <<HexDigit(n \div 16), HexDigit(n % 16)>>
Mac(v) == V("str", Join(58, [i \in 1..6 |-> Hex2(NatVal(v[i]))]))
Models == {0, 2, 4, 6, 7, 11, 13, 23, 200}
Model(v) == V("model", NatText(IF Len(v[1]) <= 9 /\ NatVal(v[1]) \in Models THEN NatVal(v[1]) ELSE 0))
Uptime(v) == V("timedelta", Fields(<<NatVal(v[1]), 3600 * NatVal(v[2]) + 60 * NatVal(v[3]) + NatVal(v[4])>>))
\* network of an address and a contiguous mask
MaskBits(n) == CASE n = 255 -> 8 [] n = 254 -> 7 [] n = 252 -> 6 [] n = 248 -> 5 [] n = 240 -> 4 [] n = 224 -> 3 [] n = 192 -> 2 [] n = 128 -> 1 [] n = 0 -> 0
Network(ip, mask) ==
  LET o(i) == NatVal(ip[i])
      k(i) == NatVal(mask[i])
  IN  V("network", Join(46, [i \in 1..4 |-> NatText(o(i) - (o(i) % (256 - k(i))))])
                   \o <<47>> \o NatText(MaskBits(k(1)) + MaskBits(k(2)) + MaskBits(k(3)) + MaskBits(k(4))))

Flag(s) == <<IF Plain(s) = <<Zero>> THEN Zero ELSE Zero + 1>>
Actuator(v) == V("actuator", Flag(v[1]) \o Flag(v[2]) \o Flag(v[3]) \o Flag(v[4]) \o Flag(v[5])
                             \o <<IF Plain(v[6]) = <<Zero + 1>> THEN Zero + 1 ELSE Zero>>)
\* 13 flags, the first is the last digit of the mask; '-' where unknown
Unknown == [i \in 1..13 |-> 45]
StopGoSet(st, f) ==
  LET d == NatVal(RespDim(f))
      v == Values(f)[1]
  IN  IF d = 250 THEN [i \in 1..13 |-> v[14 - i]] ELSE [st EXCEPT ![d - 250] = Flag(v)[1]]
StopGoOf(fs) == V("stopgo", FoldLeft(StopGoSet, Unknown, fs))
TotalizerOf(v) == <<V("datetime", Fields(<<NatVal(v[4]), NatVal(v[3]), NatVal(v[2]), NatVal(v[5]), NatVal(v[6]), 0, None>>)), FloatV(v[1])>>

\* a value of each of several responses, or the value of the first
Each(fs, Op(_)) == [i \in 1..Len(fs) |-> <<WhereV(RespWhere(fs[i]))>> \o Op(fs[i])]
What(f) == Tags(f)[2]
Decode(c, fs) ==
  LET m == c.m
      v == IF fs = <<>> THEN <<>> ELSE Values(fs[1])
      ints(k) == Each(fs, LAMBDA f : [i \in 1..k |-> IntV(Values(f)[i])])
  IN  CASE c.cls = "Light" /\ m = "get_status" -> Each(fs, LAMBDA f : <<BoolV(Split(What(f), Hash)[1] # <<Zero>>)>>)
        [] c.cls = "Dimmer" /\ m = "get_status" -> Each(fs, LAMBDA f : <<V("int", NatText(10 * NatVal(What(f))))>>)
        [] c.cls = "Automation" /\ m = "get_status" -> Each(fs, LAMBDA f : <<V("what", What(f))>>)
        [] m \in {"temporization_request", "request_current_hsv"} -> ints(3)
        [] m \in {"request_working_time_lamp", "request_current_white_temperature"} -> ints(1)
        [] m = "request_current_brightness_speed" -> ints(2)
        [] m \in {"get_active_power", "get_energy_unit_totalizer", "get_energy_unit_per_month", "get_partial_totalizer_current_month",
                  "get_partial_totalizer_current_day"} -> <<<<FloatV(v[1])>>>>
        [] m = "get_differential_current_level" -> <<<<IntV(v[1])>>>>
        [] m = "get_actuators_info" -> <<<<Actuator(v)>>>>
        [] m = "get_totalizers" -> <<TotalizerOf(v)>>
        [] m = "request_status" -> <<<<StopGoOf(fs)>>>>
        [] m = "get_time" -> <<<<TimeOf(v)>>>>
        [] m = "get_date" -> <<<<DateOf(v)>>>>
        [] m = "get_datetime" -> <<<<DateTimeOf(v)>>>>
        [] m = "get_ip" -> <<<<V("ip", Dots(v))>>>>
        [] m = "get_netmask" -> <<<<V("str", Dots(v))>>>>
        [] m = "get_macaddress" -> <<<<Mac(v)>>>>
        [] m = "get_netinfo" -> <<<<Network(v, Values(fs[2]))>>>>
        [] m = "get_model" -> <<<<Model(v)>>>>
        [] m \in {"get_firmware", "get_kernel_version", "get_distribution_version"} ->
             <<<<V("str", v[1] \o <<46>> \o v[2] \o <<46>> \o v[3])>>>>
        [] m = "get_uptime" -> <<<<Uptime(v)>>>>
===============================================================================
