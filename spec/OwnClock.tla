-------------------------------- MODULE OwnClock --------------------------------
(* The calendar: what day of the week a date is (0 is Sunday). *)
EXTENDS Integers
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + Before(y, m - 1)
\* days since 31 December of the year 0, which was a Sunday in the proleptic calendar
Ordinal(y, m, d) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400 + Before(y, m) + d
Weekday(y, m, d) == Ordinal(y, m, d) % 7
ValidDate(y, m, d) == m \in 1..12 /\ d \in 1..MonthDays(y, m)
Tomorrow(y, m, d) == IF d < MonthDays(y, m) THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
===============================================================================
