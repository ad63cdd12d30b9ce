----------------------------- MODULE PunycodeMC -----------------------------
(***************************************************************************)
(* RFC 3492: the encoder of Idna against the decoder of section 6.2, run   *)
(* as a machine on the code of every label over a few codepoints, and the  *)
(* samples of section 7.1.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Idna
CONSTANTS MaxLen, Alphabet
VARIABLES label, pc, code, at, out, n, i, bias, oldi, w, k
dec == <<code, at, out, n, i, bias, oldi, w, k>>
vars == <<label, pc, dec>>
Init == /\ label = <<>> /\ pc = "type" /\ code = <<>> /\ at = 0 /\ out = <<>>
        /\ n = 128 /\ i = 0 /\ bias = 72 /\ oldi = 0 /\ w = 1 /\ k = 36
Type == /\ pc = "type" /\ Len(label) < MaxLen
        /\ \E c \in Alphabet : label' = Append(label, c)
        /\ UNCHANGED <<pc, dec>>
\* the basic codepoints stand before the last hyphen
LastHyphen(s) == LET hs == {j \in 1 .. Len(s) : s[j] = 45}
                 IN  IF hs = {} THEN 0 ELSE CHOOSE j \in hs : \A h \in hs : h <= j
Start == /\ pc = "type" /\ ~AllAscii(label)
         /\ pc' = "read"
         /\ code' = Punycode(label)
         /\ at' = LastHyphen(code') + 1
         /\ out' = SubSeq(code', 1, LastHyphen(code') - 1)
         /\ UNCHANGED <<label, n, i, bias, oldi, w, k>>
Value(d) == IF d \in 97 .. 122 THEN d - 97 ELSE (d - 48) + 26
Digit1 ==
    /\ pc = "read" /\ at <= Len(code)
    /\ LET digit == Value(code[at])
           t == Threshold(k, bias)
           ni == i + (digit * w)
       IN  IF digit >= t
           THEN /\ i' = ni /\ w' = w * (36 - t) /\ k' = k + 36
                /\ UNCHANGED <<out, n, bias, oldi>>
           ELSE LET points == Len(out) + 1
                    nn == n + (ni \div points)
                    p == ni % points
                IN  /\ bias' = Adapt(ni - oldi, points, oldi = 0)
                    /\ n' = nn
                    /\ out' = SubSeq(out, 1, p) \o <<nn>> \o SubSeq(out, p + 1, Len(out))
                    /\ i' = p + 1 /\ oldi' = p + 1 /\ w' = 1 /\ k' = 36
    /\ at' = at + 1
    /\ UNCHANGED <<label, pc, code>>
Finish == pc = "read" /\ at > Len(code) /\ pc' = "done" /\ UNCHANGED <<label, dec>>
Next == Type \/ Start \/ Digit1 \/ Finish
Spec == Init /\ [][Next]_vars
RoundTrip == pc = "done" => out = label
Digits == pc = "read" => \A j \in 1 .. Len(code) : code[j] < 128
\* two of the RFC's samples (E, Czech; B, Chinese simplified)
Samples ==
    /\ Punycode(<<20182, 20204, 20026, 20160, 20040, 19981, 35828, 20013, 25991>>) =
         <<105, 104, 113, 119, 99, 114, 98, 52, 99, 118, 56, 97, 56, 100, 113, 103,
           48, 53, 54, 112, 113, 106, 121, 101>>
    /\ Punycode(<<98, 252, 99, 104, 101, 114>>) = <<98, 99, 104, 101, 114, 45, 107, 118, 97>>
ASSUME Samples
Emit == (pc = "type" /\ pc' = "read") => PrintT(ToJson(<<"LABEL", label>>))
=============================================================================
