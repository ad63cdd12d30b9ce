------------------------------ MODULE Binary64 ------------------------------
(***************************************************************************)
(* IEEE 754 binary64 patterns as four 16-bit words, least significant      *)
(* first, and the integers they denote.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Bit(v, i) == (v[(i \div 16) + 1] \div (2 ^ (i % 16))) % 2
Neg(v) == Bit(v, 63) = 1
Exponent(v) == (v[4] \div 16) % 2048
E(v) == Exponent(v) - 1023
FracZero(v, n) == \A i \in 0 .. n - 1 : Bit(v, i) = 0   \* the lowest n bits
IsZero(v) == Exponent(v) = 0 /\ FracZero(v, 52)

\* does it denote an integer, and is that within reach of 64 bits
IsInteger(v) == \/ IsZero(v)
                \/ /\ Exponent(v) # 2047 /\ E(v) >= 0
                   /\ FracZero(v, IF E(v) > 52 THEN 0 ELSE 52 - E(v))
FitsSigned(v) == \/ IsZero(v) \/ E(v) < 63
                 \/ E(v) = 63 /\ Neg(v) /\ FracZero(v, 52)
FitsUnsigned(v) == IsZero(v) \/ (~Neg(v) /\ E(v) < 64)
\* bit i of its magnitude
MagBit(v, i) == IF IsZero(v) THEN 0
                ELSE LET j == (i - E(v)) + 52
                     IN  IF j = 52 THEN 1
                         ELSE IF j \in 0 .. 51 THEN Bit(v, j) ELSE 0
IsMagnitude(v, r) == \A i \in 0 .. 63 : Bit(r, i) = MagBit(v, i)

Shows(x) ==
    /\ x.i = (IsInteger(x.v) /\ FitsSigned(x.v))
    /\ x.u = (IsInteger(x.v) /\ FitsUnsigned(x.v))
    /\ x.i => /\ IsMagnitude(x.v, x.n)
              /\ x.neg = (Neg(x.v) /\ ~IsZero(x.v))
    /\ x.u => IsMagnitude(x.v, x.m)
AllShow(e) == \A k \in 1 .. Len(e.x) : Shows(e.x[k])
=============================================================================
