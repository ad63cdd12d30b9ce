---------------------------- MODULE BinarySmall ----------------------------
(***************************************************************************)
(* The algorithm of src/float.c on a small format (one sign bit, EB        *)
(* exponent bits, FB fraction bits, targets of W bits), for every pattern, *)
(* against the number the pattern denotes, which here fits in TLC's        *)
(* integers when scaled by 2^(bias - 1 + FB).                              *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS EB, FBs, Ws
VARIABLES FB, W, s, e, f
vars == <<FB, W, s, e, f>>
Bias == 2 ^ (EB - 1) - 1
Init == /\ FB \in FBs /\ W \in Ws /\ s \in {0, 1}
        /\ e \in 0 .. (2 ^ EB) - 1 /\ f \in 0 .. (2 ^ FB) - 1
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* what the pattern denotes *)
Finite == e # (2 ^ EB) - 1
Unit == 2 ^ ((Bias - 1) + FB)
Scaled == IF e = 0 THEN f ELSE ((2 ^ FB) + f) * (2 ^ (e - 1))
Magnitude == Scaled \div Unit
IsInt == Finite /\ Scaled % Unit = 0
Num == IF s = 1 THEN -Magnitude ELSE Magnitude
WantSigned == IF IsInt /\ Num >= -(2 ^ (W - 1)) /\ Num < 2 ^ (W - 1)
              THEN <<TRUE, Num>> ELSE <<FALSE, 0>>
WantUnsigned == IF IsInt /\ Num >= 0 /\ Num < 2 ^ W
                THEN <<TRUE, Num>> ELSE <<FALSE, 0>>

(* the algorithm *)
X == e - Bias
Significand == (2 ^ FB) + f
Whole == IF X >= FB THEN Significand * (2 ^ (X - FB))
         ELSE Significand \div (2 ^ (FB - X))
Exact == X >= FB \/ f % (2 ^ (FB - X)) = 0
Signed == IF e = 0 /\ f = 0 THEN <<TRUE, 0>>
          ELSE IF s = 1 /\ X = W - 1 /\ f = 0 THEN <<TRUE, -(2 ^ (W - 1))>>
          ELSE IF X < 0 \/ X >= W - 1 THEN <<FALSE, 0>>
          ELSE IF Exact THEN <<TRUE, IF s = 1 THEN -Whole ELSE Whole>>
          ELSE <<FALSE, 0>>
Unsigned == IF e = 0 /\ f = 0 THEN <<TRUE, 0>>
            ELSE IF s = 1 \/ X < 0 \/ X >= W THEN <<FALSE, 0>>
            ELSE IF Exact THEN <<TRUE, Whole>> ELSE <<FALSE, 0>>
\* as for binary64, the exponents reach beyond the target
Sensible == W <= Bias
Right == Sensible => Signed = WantSigned /\ Unsigned = WantUnsigned
=============================================================================
