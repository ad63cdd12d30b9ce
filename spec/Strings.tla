------------------------------ MODULE Strings ------------------------------
(***************************************************************************)
(* Strings are sequences of bytes 1..255.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

White == {9, 10, 12, 13, 32}
\* does d stand at place i of s
Stands(s, d, i) == (i + Len(d)) - 1 <= Len(s) /\ SubSeq(s, i, (i + Len(d)) - 1) = d
\* the first place from i on where d stands, or 0
RECURSIVE FirstFrom(_, _, _)
FirstFrom(s, d, i) == IF (i + Len(d)) - 1 > Len(s) THEN 0
                      ELSE IF SubSeq(s, i, (i + Len(d)) - 1) = d THEN i
                      ELSE FirstFrom(s, d, i + 1)
Contains(s, d) == FirstFrom(s, d, 1) > 0
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, d, max, i) ==
    LET k == FirstFrom(s, d, i)
    IN  IF max = 0 \/ k = 0 THEN <<SubSeq(s, i, Len(s))>>
        ELSE <<SubSeq(s, i, k - 1)>> \o SplitFrom(s, d, max - 1, k + Len(d))
Split(s, d, max) == SplitFrom(s, d, max, 1)

RECURSIVE Join(_, _)
Join(ps, d) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o d \o Join(Tail(ps), d)
(* The stated property: ps is s split at the leftmost occurrences of d, at *)
(* most max times.                                                         *)
IsSplit(s, d, max, ps) ==
    /\ Len(ps) \in 1 .. max + 1
    /\ Join(ps, d) = s
    /\ \A k \in 1 .. Len(ps) - 1 : FirstFrom(ps[k] \o d, d, 1) = Len(ps[k]) + 1
    /\ Contains(ps[Len(ps)], d) => Len(ps) = max + 1

\* maximal runs of non-whitespace
RECURSIVE AtomsFrom(_, _, _)
AtomsFrom(s, i, cur) ==
    LET flush == IF cur = <<>> THEN <<>> ELSE <<cur>>
    IN  IF i > Len(s) THEN flush
        ELSE IF s[i] \in White THEN flush \o AtomsFrom(s, i + 1, <<>>)
        ELSE AtomsFrom(s, i + 1, Append(cur, s[i]))
Atoms(s) == AtomsFrom(s, 1, <<>>)
(* The same said otherwise: the k-th atom is the k-th run.                 *)
RunStarts(s) == {i \in 1 .. Len(s) : s[i] \notin White /\ (i = 1 \/ s[i - 1] \in White)}
RunEnd(s, i) == CHOOSE j \in i .. Len(s) :
    /\ \A m \in i .. j : s[m] \notin White
    /\ j = Len(s) \/ s[j + 1] \in White
Nth(S, k) == CHOOSE i \in S : Len(SelectSeq([n \in 1 .. i |-> n], LAMBDA n : n \in S)) = k
IsAtoms(s, as) ==
    LET n == Len(SelectSeq([i \in 1 .. Len(s) |-> i], LAMBDA i : i \in RunStarts(s)))
    IN  /\ Len(as) = n
        /\ \A k \in 1 .. n : LET i == Nth(RunStarts(s), k)
                             IN  as[k] = SubSeq(s, i, RunEnd(s, i))

RECURSIVE StripFront(_)
StripFront(s) == IF s # <<>> /\ Head(s) \in White THEN StripFront(Tail(s)) ELSE s
RECURSIVE StripBack(_)
StripBack(s) == IF s # <<>> /\ s[Len(s)] \in White
                THEN StripBack(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripBack(StripFront(s))
IsStripped(s, t) ==
    \E i \in 0 .. Len(s) : \E j \in i .. Len(s) :
        /\ t = SubSeq(s, i + 1, j)
        /\ \A m \in (1 .. i) \cup (j + 1 .. Len(s)) : s[m] \in White
        /\ t # <<>> => t[1] \notin White /\ t[Len(t)] \notin White

(* ---------------------------------------------------------------- ASCII *)
Lower(b) == IF b \in 65 .. 90 THEN b + 32 ELSE b
Upper(b) == IF b \in 97 .. 122 THEN b - 32 ELSE b
LowerAll(s) == [i \in 1 .. Len(s) |-> Lower(s[i])]
UpperAll(s) == [i \in 1 .. Len(s) |-> Upper(s[i])]
\* byte-wise order: -1, 0 or 1
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1
    ELSE CmpFrom(a, b, i + 1)
Cmp(a, b) == CmpFrom(a, b, 1)
Upto(s, n) == IF n < Len(s) THEN SubSeq(s, 1, n) ELSE s
CaseCmp(a, b) == Cmp(LowerAll(a), LowerAll(b))
NCaseCmp(a, b, n) == CaseCmp(Upto(a, n), Upto(b, n))
StartsWith(s, p) == Len(p) <= Len(s) /\ Upto(s, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, (Len(s) - Len(p)) + 1, Len(s)) = p

If(c, n) == IF c THEN n ELSE 0
Class(b) ==
    If(b \in 0 .. 31 \cup {127}, 1) + If(b \in 48 .. 57, 2)
    + If(b \in 97 .. 122, 4) + If(b \in 65 .. 90, 8)
    + If(b = 9, 16) + If(b = 10, 32) + If(b = 12, 64) + If(b = 13, 128)
    + If(b = 32, 256) + If(b \in 48 .. 55, 512)
    + If(b \in 48 .. 57 \cup 97 .. 102 \cup 65 .. 70, 1024)
    + If(b = 95, 2048) + If(b \in 32 .. 126, 4096)
Hex == 48 .. 57 \cup 65 .. 70 \cup 97 .. 102
DigitValue(b) == IF b <= 57 THEN b - 48 ELSE Lower(b) - 87

(* ------------------------------------------------- what each call shows *)
SplitShows(e) == e.r = Split(e.d, e.delim, e.max) /\ e.cnt = Len(e.r)
AtomsShow(e) == e.r = Atoms(e.d) /\ e.cnt = Len(e.r)
StripShows(e) == e.r = Strip(e.d)
NullsShow(e) == e.r = <<1, 1, 1>>
DupShows(e) == e.fresh /\ e.r = e.d /\ e.r2 = e.d
SubShows(e) == e.r = SubSeq(e.d, e.a + 1, e.b)
CmpShows(e) == e.r = CaseCmp(e.a, e.b)
NCmpShows(e) == e.r = NCaseCmp(e.a, e.b, e.n)
EndsShow(e) == e.r = EndsWith(e.a, e.b)
SkipShows(e) ==
    LET exact == IF StartsWith(e.a, e.b) THEN Len(e.b) ELSE -1
        loose == IF StartsWith(LowerAll(e.a), LowerAll(e.b)) THEN Len(e.b) ELSE -1
    IN  e.r = <<exact, exact, loose, loose>>
CasesShow(e) ==
    LET part(f(_)) == [i \in 1 .. Len(e.d) |-> IF i <= e.b THEN f(e.d[i]) ELSE e.d[i]]
    IN  /\ e.same
        /\ e.r0 = LowerAll(e.d) \o <<0>>
        /\ e.r1 = UpperAll(e.d) \o <<0>>
        /\ e.r2 = part(Lower) \o <<0>>
        /\ e.r3 = part(Upper) \o <<0>>
\* the bytes from place a up to b, NULs among them, are converted
RangesShow(e) ==
    LET part(f(_)) == [i \in 1 .. Len(e.d) |->
                          IF i > e.a /\ i <= e.b THEN f(e.d[i]) ELSE e.d[i]]
    IN  e.same /\ e.r0 = part(Lower) /\ e.r1 = part(Upper)
ClassShows(e) ==
    \A b \in 0 .. 255 :
        /\ e.c[b + 1] = Class(b)
        /\ e.lo[b + 1] = Lower(b)
        /\ e.up[b + 1] = Upper(b)
        /\ b \in Hex => e.dv[b + 1] = DigitValue(b)
=============================================================================
