------------------------------- MODULE UcdMC -------------------------------
(***************************************************************************)
(* Laws that the pinned character data satisfies, a page of 256 codepoints *)
(* at a time: they relate the tables with one another and with the forms   *)
(* that Normalize defines, so a slip in either shows.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Normalize
VARIABLES page
Init == page \in 0 .. 15
Next == page < 4336 /\ page' = page + 16
Spec == Init /\ [][Next]_page
Here == (page * 256) .. ((page * 256) + 255)

Classes == \A c \in Here : /\ Ccc(c) \in 0 .. 254 /\ Cat(c) \in 0 .. 29
                           /\ Ccc(c) # 0 => Mark(c)
Surrogates == \A c \in Here : (Cat(c) = 4) = (c \in 55296 .. 57343)
\* full decompositions are final, ordered and at most three times as long
Decompositions == \A c \in Here :
    LET f == Full(c)
    IN  /\ FullAll(f) = f /\ Order(f) = f
        /\ Scalar(c) => Bytes(f) <= 3 * Width(c)
        /\ Has(Flags(c), 4) = (f # <<c>>)
\* composites: what they decompose into, and never longer
Composites == \A c \in Here : LET ps == ComposesOf(c) IN
    \A k \in 1 .. Len(ps) :
        /\ DecompOf(ps[k][2]) = <<c, ps[k][1]>>
        /\ Width(ps[k][2]) <= Width(c) + Width(ps[k][1])
        /\ Ccc(ps[k][2]) = 0 /\ Ccc(c) = 0
        /\ Has(Flags(ps[k][1]), 2)
        /\ ~Has(Flags(ps[k][2]), 1)
QuickChecks == \A c \in Here :
    /\ Has(Flags(c), 1) = (NFC(<<c>>) # <<c>>)
    /\ ~(Has(Flags(c), 1) /\ Has(Flags(c), 2))
    /\ ~(Has(Flags(c), 16) /\ Has(Flags(c), 32))
    /\ Has(Flags(c), 1) => Has(Flags(c), 16)
    /\ Has(Flags(c), 4) => Has(Flags(c), 64)
\* case: only letters change, and a change is undone or at least stable
Cases == \A c \in Here :
    /\ LowerOf(c) # c => Cat(c) = 9 /\ LowerOf(LowerOf(c)) = LowerOf(c)
    /\ UpperOf(c) # c => Cat(c) = 5 /\ UpperOf(UpperOf(c)) = UpperOf(c)
=============================================================================
