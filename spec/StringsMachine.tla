--------------------------- MODULE StringsMachine ---------------------------
(***************************************************************************)
(* The scanning loops of src/charstr.c (split, atoms, strip) as step       *)
(* machines over every string of a small alphabet, each delimiter and      *)
(* limit.  What they produce is the functional definition, which in turn   *)
(* meets the stated property.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Strings
CONSTANTS MaxLen
VARIABLES s, pc, d, left, from, to, out
vars == <<s, pc, d, left, from, to, out>>
Alphabet == {97, 44, 32}
Delims == {<<44>>, <<97>>, <<97, 97>>, <<97, 44>>, <<97, 44, 97>>}
Limits == {0, 1, 2, 9}
At(i) == IF i <= Len(s) THEN s[i] ELSE 0
max == d[2]

Init == s = <<>> /\ pc = "type" /\ d = <<<<>>, 0>> /\ left = 0 /\ from = 1
        /\ to = 1 /\ out = <<>>
Type == /\ pc = "type" /\ Len(s) < MaxLen
        /\ \E c \in Alphabet : s' = Append(s, c)
        /\ UNCHANGED <<pc, d, left, from, to, out>>
StartSplit == /\ pc = "type" /\ pc' = "split"
              /\ \E x \in Delims, m \in Limits : d' = <<x, m>> /\ left' = m
              /\ UNCHANGED <<s, from, to, out>>
SplitStep ==
    /\ pc = "split"
    /\ LET k == FirstFrom(s, d[1], from)
       IN  IF left = 0 \/ k = 0
           THEN /\ out' = Append(out, SubSeq(s, from, Len(s))) /\ pc' = "splitted"
                /\ UNCHANGED <<left, from>>
           ELSE /\ out' = Append(out, SubSeq(s, from, k - 1))
                /\ from' = k + Len(d[1]) /\ left' = left - 1 /\ UNCHANGED pc
    /\ UNCHANGED <<s, d, to>>
StartAtoms == pc = "type" /\ pc' = "skip" /\ UNCHANGED <<s, d, left, from, to, out>>
Skip == /\ pc = "skip"
        /\ IF At(from) = 0 THEN pc' = "atomized" /\ UNCHANGED <<from, to>>
           ELSE IF At(from) \in White THEN from' = from + 1 /\ UNCHANGED <<pc, to>>
           ELSE to' = from + 1 /\ pc' = "scan" /\ UNCHANGED from
        /\ UNCHANGED <<s, d, left, out>>
Scan == /\ pc = "scan"
        /\ IF At(to) # 0 /\ At(to) \notin White
           THEN to' = to + 1 /\ UNCHANGED <<pc, from, out>>
           ELSE /\ out' = Append(out, SubSeq(s, from, to - 1)) /\ from' = to
                /\ pc' = "skip" /\ UNCHANGED to
        /\ UNCHANGED <<s, d, left>>
StartStrip == /\ pc = "type" /\ pc' = "front" /\ UNCHANGED <<s, d, left, from, to, out>>
Front == /\ pc = "front"
         /\ IF At(from) \in White THEN from' = from + 1 /\ UNCHANGED <<pc, to>>
            ELSE to' = Len(s) + 1 /\ pc' = "back" /\ UNCHANGED from
         /\ UNCHANGED <<s, d, left, out>>
Back == /\ pc = "back"
        /\ IF to > from /\ At(to - 1) \in White
           THEN to' = to - 1 /\ UNCHANGED <<pc, out>>
           ELSE pc' = "stripped" /\ out' = SubSeq(s, from, to - 1) /\ UNCHANGED to
        /\ UNCHANGED <<s, d, left, from>>
Next == Type \/ StartSplit \/ SplitStep \/ StartAtoms \/ Skip \/ Scan
        \/ StartStrip \/ Front \/ Back
Spec == Init /\ [][Next]_vars

Inside == from <= Len(s) + 1 /\ to <= Len(s) + 1
SplitRight == pc = "splitted" => /\ out = Split(s, d[1], max)
                                 /\ IsSplit(s, d[1], max, out)
AtomsRight == pc = "atomized" => out = Atoms(s) /\ IsAtoms(s, out)
StripRight == pc = "stripped" => out = Strip(s) /\ IsStripped(s, out)
\* no other list of pieces meets the stated property (short strings only)
Pieces == {SubSeq(s, i, j) : i \in 1 .. Len(s) + 1, j \in 0 .. Len(s)}
Unique == (pc = "splitted" /\ Len(s) <= 3) =>
    \A n \in 1 .. 4 : \A ps \in [1 .. n -> Pieces] :
        IsSplit(s, d[1], max, ps) => ps = out
Emit == /\ pc' = "splitted" => PrintT(ToJson(<<"SPLIT", s, d[1], max>>))
        /\ pc' = "atomized" => PrintT(ToJson(<<"ATOMS", s>>))
=============================================================================
