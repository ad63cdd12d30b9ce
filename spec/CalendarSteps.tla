--------------------------- MODULE CalendarSteps ---------------------------
(***************************************************************************)
(* The calendar one day at a time, from the first of January of each of a  *)
(* range of years: the day number formula and the cycle arithmetic of      *)
(* src/date.c (400, 100, 4 and 1 years from the first of March 1600) must  *)
(* both follow it.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Calendar
CONSTANTS FirstYear, LastYear
VARIABLES y, m, d, n, w
vars == <<y, m, d, n, w>>

Init == /\ y \in FirstYear .. LastYear /\ m = 1 /\ d = 1
        /\ n = DayNumber(y, 1, 1) /\ w = WeekDay(n)
Next == /\ ~(m = 12 /\ d = 31 /\ y = LastYear)
        /\ n' = n + 1
        /\ w' = IF w = 6 THEN 0 ELSE w + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
           ELSE /\ d' = 1
                /\ IF m < 12 THEN m' = m + 1 /\ UNCHANGED y
                   ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_vars

(* date.c; C's / and % truncate towards zero *)
CDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
CMod(a, b) == a - (b * CDiv(a, b))
\* day of a year that starts in March, to month (from 1) and day
MarchLens == <<31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 31, 28>>
RECURSIVE Locate(_, _)
Locate(k, i) == IF k < MarchLens[i] THEN <<i, k + 1>>
                ELSE Locate(k - MarchLens[i], i + 1)
Break(days0) ==
    LET C == 36524
        F == 146097
        Q == 1461
        days == days0 + 135080
        r == CMod(days, F)
        y0 == 1600 + (400 * CDiv(days, F)) - (IF r < 0 THEN 400 ELSE 0)
        a == IF r < 0 THEN r + F ELSE r
        c == a \div C
        b == a % C
        q == b \div Q
        e == b % Q
        yy == e \div 365
        p == Locate(e % 365, 1)
        mon == IF p[1] <= 10 THEN p[1] + 2 ELSE p[1] - 10
    IN  IF c = 4 THEN <<y0 + 400, 2, 29>>
        ELSE IF yy = 4 THEN <<y0 + (100 * c) + (4 * q) + 4, 2, 29>>
        ELSE <<y0 + (100 * c) + (4 * q) + yy + (IF p[1] > 10 THEN 1 ELSE 0), mon, p[2]>>
Follows == /\ ValidDate(y, m, d)
           /\ DayNumber(y, m, d) = n /\ WeekDay(n) = w
           /\ Break(n) = <<y, m, d>>
=============================================================================
