------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bits: limbs of 15 bits, least           *)
(* significant first; missing limbs are zero.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Base == 32768
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
EqN(a, b) == \A i \in 1 .. Longer(a, b) : At(a, i) = At(b, i)
LtN(a, b) == \E i \in 1 .. Longer(a, b) :
    At(a, i) < At(b, i) /\ \A j \in i + 1 .. Longer(a, b) : At(a, j) = At(b, j)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > Longer(a, b) THEN <<c>>
    ELSE LET s == At(a, i) + At(b, i) + c
         IN  <<s % Base>> \o AddFrom(a, b, i + 1, s \div Base)
AddN(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE ScaleFrom(_, _, _, _)
ScaleFrom(a, k, i, c) ==       \* times a small number
    IF i > Len(a) THEN <<c>>
    ELSE LET s == (a[i] * k) + c
         IN  <<s % Base>> \o ScaleFrom(a, k, i + 1, s \div Base)
Scale(a, k) == ScaleFrom(a, k, 1, 0)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, i) ==
    IF i > Len(b) THEN <<0>>
    ELSE AddN(Scale(a, b[i]), <<0>> \o MulFrom(a, b, i + 1))
MulN(a, b) == MulFrom(a, b, 1)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, k, i, rest) ==      \* by a small number, from the top
    IF i = 0 THEN <<>>
    ELSE LET x == (rest * Base) + a[i]
         IN  DivFrom(a, k, i - 1, x % k) \o <<x \div k>>
DivN(a, k) == DivFrom(a, k, Len(a), 0)
\* 2^64 = 2^(4 * 15) * 16
Pow64 == <<0, 0, 0, 0, 16>>
Pow63 == <<0, 0, 0, 0, 8>>
=============================================================================
