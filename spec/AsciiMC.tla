------------------------------ MODULE AsciiMC ------------------------------
(***************************************************************************)
(* Laws of the ASCII definitions: the case-insensitive order is a total    *)
(* preorder whose equivalence is equality up to case, a limit only ever    *)
(* looks at that much, and the classes are consistent with one another.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Strings
CONSTANTS MaxLen
VARIABLES a, b
\* A a Z z [ 200
Alphabet == {65, 97, 90, 122, 91, 200}
Init == a = <<>> /\ b = <<>>
Next == \E c \in Alphabet :
            \/ Len(a) < MaxLen /\ a' = Append(a, c) /\ UNCHANGED b
            \/ Len(b) < MaxLen /\ b' = Append(b, c) /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
Antisymmetric == CaseCmp(a, b) = -CaseCmp(b, a)
Reflexive == CaseCmp(a, b) = 0 <=> UpperAll(a) = UpperAll(b)
Limited == \A n \in 0 .. MaxLen + 1 :
    /\ n >= Len(a) /\ n >= Len(b) => NCaseCmp(a, b, n) = CaseCmp(a, b)
    /\ NCaseCmp(a, b, n) # 0 => NCaseCmp(a, b, n) = CaseCmp(a, b)
PrefixOrdered == StartsWith(LowerAll(a), LowerAll(b)) => CaseCmp(a, b) >= 0
Transitive == \A c \in {<<>>, <<91>>, <<97>>, <<90, 65>>, <<200>>} :
    CaseCmp(a, b) <= 0 /\ CaseCmp(b, c) <= 0 => CaseCmp(a, c) <= 0
ASSUME \A x \in 0 .. 255 :
    /\ Lower(Upper(x)) = Lower(x) /\ Upper(Lower(x)) = Upper(x)
    /\ (Class(x) % 2 = 1) # (Class(x) >= 4096) <=> x < 128
    /\ (Class(x) \div 4) % 2 = 1 <=> Upper(x) # x
    /\ (Class(x) \div 8) % 2 = 1 <=> Lower(x) # x
    /\ x \in White <=> (Class(x) \div 16) % 32 > 0
    /\ x \in Hex => DigitValue(x) \in 0 .. 15
=============================================================================
