------------------------------ MODULE FormatMC ------------------------------
(***************************************************************************)
(* Measure, allocate, write: however long the text is, the buffer obtained *)
(* after measuring is exactly long enough for it and its terminator.  And  *)
(* laws of the formatting functions: numbers read back, widths hold.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Format
VARIABLES n, w, pc, size, written
vars == <<n, w, pc, size, written>>
RECURSIVE Read(_)
Read(s) == IF s = <<>> THEN 0
           ELSE (10 * Read(SubSeq(s, 1, Len(s) - 1))) + (s[Len(s)] - 48)
Value(s) == IF s[1] = 45 THEN -Read(SubSeq(s, 2, Len(s))) ELSE Read(s)
Args == {0, 1, -1, 9, 10, -10, 99, 100, 12345, -12345, 2147483647, -2147483647}
Ev(k) == [k |-> k, s |-> <<97, 98, 99>>, n |-> n, w |-> w]
Init == n \in Args /\ w \in -12 .. 12 /\ pc = 0 /\ size = 0 /\ written = <<>>
Measure == pc % 3 = 0 /\ pc < 36 /\ size' = Len(Text(Ev(pc \div 3))) /\ pc' = pc + 1
           /\ UNCHANGED <<n, w, written>>
Write == pc % 3 = 1 /\ written' = Text(Ev(pc \div 3)) \o <<0>> /\ pc' = pc + 1
         /\ UNCHANGED <<n, w, size>>
Return == pc % 3 = 2 /\ pc' = pc + 1 /\ UNCHANGED <<n, w, size, written>>
Next == Measure \/ Write \/ Return
Spec == Init /\ [][Next]_vars
Fits == pc % 3 = 2 => Len(written) = size + 1
Laws == /\ Value(Decimal(n)) = n
        /\ (w >= 0 => Value(Zeros(n, w)) = n)
        /\ (w >= 0 => Len(Zeros(n, w)) >= w)
        /\ \A s \in {<<>>, <<65>>, <<65, 66>>} :
            Len(Width(s, w)) = (LET x == IF w < 0 THEN -w ELSE w
                                IN  IF x > Len(s) THEN x ELSE Len(s))
        /\ Low31(n) >= 0
=============================================================================
