---------------------------- MODULE OwnCatalogueMC ----------------------------
(* A gateway whose clock is set and read through the catalogue, one day after the
   other through a whole cycle of the calendar, and the consistency of the tables.    *)
EXTENDS OwnCatalogue, TLC
CONSTANTS Years1, Days1
VARIABLES date, day, n
vars == <<date, day, n>>
QuickYears == {1000, 1599, 1899, 1999, 2023, 2099, 9990}
ThoroughYears == {1600 + 4 * k : k \in 0..100}
Init == /\ \E y \in Years1 : date = <<y, 1, 1>>
        /\ day = Weekday(date[1], date[2], date[3])
        /\ n = 0
Next == /\ n < Days1
        /\ date' = Tomorrow(date[1], date[2], date[3])
        /\ day' = (day + 1) % 7
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars

C(cls, m, a) == [cls |-> cls, m |-> m, w |-> <<49, 49>>, a |-> a, now |-> <<>>]
\* the day of the week runs without a break
WeekRuns == day = Weekday(date[1], date[2], date[3])
\* 1 January 2000 was a Saturday
Anchor == Weekday(2000, 1, 1) = 6 /\ Weekday(1970, 1, 1) = 4
\* what is written is what is read
Frame(c) == CHOOSE f \in Call(c).fs : TRUE
DateBack == LET c == C("Gateway", "set_date", <<date[3], date[2], date[1]>>)
            IN  DateOf(Values(Frame(c))) = V("date", Fields(date))
ZoneBack == \A z \in -23..23 : ZoneHours(Zone(z)) = z /\ Len(Zone(z)) = 3
TimeBack == \A z \in {-23, -1, 0, 5, 23} :
              LET a == <<(n % 24), (n % 60), 59 - (n % 60), z>>
              IN  TimeOf(Values(Frame(C("Gateway", "set_time", a)))) = V("time", Fields(<<a[1], a[2], a[3], 60 * z>>))
DateTimeBack == LET a == <<(n % 24), (n % 60), 59 - (n % 60), (n % 47) - 23, date[3], date[2], date[1]>>
                IN  DateTimeOf(Values(Frame(C("Gateway", "set_datetime", a)))) = V("datetime", Fields(<<date[1], date[2], date[3], a[1], a[2], a[3], 60 * a[4]>>))

\* commands that mean different things look different
LightMs == {"turn_on_1_min", "turn_on_2_min", "turn_on_3_min", "turn_on_4_min", "turn_on_5_min", "turn_on_15_min", "turn_on_30_min", "turn_on_0_5_sec",
            "blink_0_5_sec", "blink_1_0_sec", "blink_1_5_sec", "blink_2_0_sec", "blink_2_5_sec", "blink_3_0_sec", "blink_3_5_sec", "blink_4_0_sec",
            "blink_4_5_sec", "blink_5_0_sec", "turn_on", "turn_off", "set_20_percent", "set_30_percent", "set_40_percent", "set_50_percent",
            "set_60_percent", "set_70_percent", "set_80_percent", "set_90_percent", "set_100_percent", "get_status", "temporization_request",
            "request_working_time_lamp", "request_current_brightness_speed", "request_current_hsv", "request_current_white_temperature"}
CameraMs == {"receive_video", "free_resources", "zoom_in", "zoom_out", "increase_x_coordinate", "decrease_x_coordinate", "increase_y_coordinate",
             "decrease_y_coordinate", "increase_luminosity", "decrease_luminosity", "increase_contrast", "decrease_contrast", "increase_color",
             "decrease_color", "increase_quality", "decrease_quality"}
Distinct == /\ \A p, q \in LightMs : p # q => Frame(C("Dimmer", p, <<>>)) # Frame(C("Dimmer", q, <<>>))
            /\ \A p, q \in CameraMs : p # q => Frame(C("Camera", p, <<>>)) # Frame(C("Camera", q, <<>>))
            /\ \A x, y, u, v \in 1..4 : <<x, y>> # <<u, v>> => Frame(C("Camera", "display_dial", <<x, y>>)) # Frame(C("Camera", "display_dial", <<u, v>>))
\* values survive the trip through a frame
HsvBack == \A h \in {0, 9, 10, 99, 100, 359} : \A s, v \in {0, 7, 100} :
             LET f == Frame(C("Dimmer", "set_hsv", <<h, s, v>>))
             IN  Values(f) = Nats(<<h, s, v>>) /\ RespWhere(f) = <<49, 49>>
Ranges == /\ \A x \in -2..258 : Call(C("Dimmer", "turn_on", <<x>>)).ok <=> x \in 0..255
          /\ \A x \in -2..103 : Call(C("Dimmer", "up_percent", <<x, None>>)).ok <=> x \in 0..100
          /\ \A x, y \in -1..6 : Call(C("Camera", "display_dial", <<x, y>>)).ok <=> x \in 1..4 /\ y \in 1..4
Tables == n > 0 \/ (ZoneBack /\ Anchor /\ Distinct /\ HsvBack /\ Ranges)
===============================================================================
