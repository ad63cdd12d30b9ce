------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar; days are counted from 1970-01-01.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                    [] m \in {4, 6, 9, 11} -> 30
                    [] m = 2 -> IF Leap(y) THEN 29 ELSE 28
ValidDate(y, m, d) == m \in 1 .. 12 /\ d \in 1 .. MonthLen(y, m)
Before(m) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>[m]
\* \div rounds down
DayNumber(y, m, d) ==
    LET x == y - 1
    IN  ((365 * x) + (x \div 4)) - (x \div 100) + (x \div 400) - 719162
        + Before(m) + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + (d - 1)
WeekDay(n) == (n + 4) % 7          \* Sunday is 0; 1970-01-01 was a Thursday

\* t is <<years since 1900, month from 0, day, h, m, s, weekday, dst>>
Shows(t, day, sec) ==
    /\ Len(t) = 8
    /\ ValidDate(t[1] + 1900, t[2] + 1, t[3])
    /\ DayNumber(t[1] + 1900, t[2] + 1, t[3]) = day
    /\ t[4] \in 0 .. 23 /\ t[5] \in 0 .. 59 /\ t[6] \in 0 .. 59
    /\ (t[4] * 3600) + (t[5] * 60) + t[6] = sec
    /\ t[7] = WeekDay(day)
    /\ t[8] = 0
\* a run of days at one time of day; a run of seconds
DaysShow(e) == \A i \in 1 .. Len(e.t) : Shows(e.t[i], e.day + (i - 1), e.sec)
SecsShow(e) == \A i \in 1 .. Len(e.t) :
    LET s == e.sec + (i - 1)
    IN  Shows(e.t[i], e.day + (s \div 86400), s % 86400)
=============================================================================
