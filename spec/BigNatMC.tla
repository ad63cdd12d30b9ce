------------------------------ MODULE BigNatMC ------------------------------
(* The limb arithmetic agrees with TLC's own where that reaches.           *)
EXTENDS BigNat, TLC
VARIABLES x, y
Samples == {0, 1, 2, 3, 7, 255, 32767, 32768, 32769, 65535, 65536, 99999,
            1073741823}
Limbs(n) == <<n % Base, (n \div Base) % Base, n \div (Base * Base)>>
Init == x \in Samples /\ y \in Samples
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Sound == /\ EqN(AddN(Limbs(x), Limbs(y)), Limbs(x + y))
         /\ LtN(Limbs(x), Limbs(y)) <=> x < y
         /\ EqN(Limbs(x), Limbs(y)) <=> x = y
         /\ (x < 46000 /\ y < 46000) =>
                EqN(MulN(Limbs(x), Limbs(y)), Limbs(x * y))
         /\ EqN(DivN(Limbs(x), 3), Limbs(x \div 3))
         /\ EqN(Scale(DivN(Limbs(x), 7), 7), Limbs(x - (x % 7)))
=============================================================================
