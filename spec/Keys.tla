-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Pointer-sized integers as BigNat limbs of their two's complement bit    *)
(* pattern, their orders, and what may be said about hash values.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNat
Negative(a) == ~LtN(a, Pow63)
UCmp(a, b) == IF LtN(a, b) THEN -1 ELSE IF LtN(b, a) THEN 1 ELSE 0
\* among numbers of the same sign, the order of the patterns
ICmp(a, b) == IF Negative(a) # Negative(b) THEN (IF Negative(a) THEN -1 ELSE 1)
              ELSE UCmp(a, b)
BoxShows(e) ==
    /\ EqN(e.ia, e.a) /\ EqN(e.ua, e.a)
    /\ e.neg = Negative(e.a)
    /\ e.ic = ICmp(e.a, e.b) /\ e.uc = UCmp(e.a, e.b)
    \* equal keys hash equally, every time
    /\ e.hi[2] = 1 /\ e.hu[2] = 1
    /\ EqN(e.a, e.b) => e.hi[1] = 1 /\ e.hu[1] = 1
(* The hash is the same wherever and in whatever surroundings the content  *)
(* lies (same); it depends on each of its bytes (seen) and on where it     *)
(* ends (shorter).                                                         *)
HashShows(e) ==
    /\ e.same /\ e.shorter
    /\ Len(e.seen) = Len(e.d) /\ \A i \in 1 .. Len(e.seen) : e.seen[i] = 1
=============================================================================
