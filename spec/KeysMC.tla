------------------------------- MODULE KeysMC -------------------------------
(***************************************************************************)
(* Two's complement at 6 bits with the same definitions as Keys: the       *)
(* orders are those of the integers denoted.                               *)
(***************************************************************************)
EXTENDS Integers
VARIABLES a, b
Half == 32
Signed(x) == IF x >= Half THEN x - (2 * Half) ELSE x
Sign(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Negative(x) == ~(x < Half)
UCmp(x, y) == IF x < y THEN -1 ELSE IF y < x THEN 1 ELSE 0
ICmp(x, y) == IF Negative(x) # Negative(y) THEN (IF Negative(x) THEN -1 ELSE 1)
              ELSE UCmp(x, y)
Init == a \in 0 .. (2 * Half) - 1 /\ b \in 0 .. (2 * Half) - 1
Spec == Init /\ [][FALSE]_<<a, b>>
Right == ICmp(a, b) = Sign(Signed(a) - Signed(b)) /\ UCmp(a, b) = Sign(a - b)
=============================================================================
