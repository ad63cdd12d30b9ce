----------------------------- MODULE Normalize -----------------------------
(***************************************************************************)
(* Unicode normalization forms D and C (UAX #15) of sequences of           *)
(* codepoints, and the quick check.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Ucd, Utf8

SBase == 44032
LBase == 4352
VBase == 4449
TBase == 4519
IsSyllable(c) == c \in SBase .. (SBase + 11171)
SyllableParts(c) ==
    LET i == c - SBase
        v == <<LBase + (i \div 588), VBase + ((i % 588) \div 28)>>
    IN  IF i % 28 = 0 THEN v ELSE Append(v, TBase + (i % 28))

RECURSIVE Full(_)
Full(c) == IF IsSyllable(c) THEN SyllableParts(c)
           ELSE LET d == DecompOf(c)
                IN  IF d = <<>> THEN <<c>>
                    ELSE Concat([i \in 1 .. Len(d) |-> Full(d[i])])
FullAll(s) == Concat([i \in 1 .. Len(s) |-> Full(s[i])])

(* Canonical order: within each run of marks (nonzero class), by class,    *)
(* keeping the order of equals.                                            *)
RECURSIVE ByClass(_, _, _)      \* those of class k, then those of higher ones
ByClass(m, cls, k) ==
    LET more == {cls[i] : i \in {j \in 1 .. Len(m) : cls[j] > k}}
    IN  SelectSeq(m, LAMBDA c : Ccc(c) = k)
        \o (IF more = {} THEN <<>>
            ELSE ByClass(m, cls, CHOOSE x \in more : \A y \in more : x <= y))
StableSort(m) ==
    LET cls == [i \in 1 .. Len(m) |-> Ccc(m[i])]
    IN  IF \A i \in 1 .. Len(m) - 1 : cls[i] <= cls[i + 1] THEN m
        ELSE ByClass(m, cls, 0)
\* run is the run of marks being read
Order(s) ==
    LET r == Fold(LAMBDA a, c :
                    IF Ccc(c) # 0 THEN [a EXCEPT !.run = Append(@, c)]
                    ELSE IF a.run = <<>> THEN [a EXCEPT !.out = Append(@, c)]
                    ELSE [out |-> Append(a.out \o StableSort(a.run), c), run |-> <<>>],
                  [out |-> <<>>, run |-> <<>>], s)
    IN  r.out \o StableSort(r.run)
NFD(s) == Order(FullAll(s))
IsNFD(s) == NFD(s) = s

(* ----------------------------------------------------------- composition *)
\* the primary composite of a pair, or -1
Composite(a, b) ==
    IF a \in LBase .. (LBase + 18) /\ b \in VBase .. (VBase + 20)
    THEN SBase + ((((a - LBase) * 21) + (b - VBase)) * 28)
    ELSE IF IsSyllable(a) /\ (a - SBase) % 28 = 0 /\ b \in TBase + 1 .. (TBase + 27)
    THEN a + (b - TBase)
    ELSE LET ps == ComposesOf(a)
             k == {i \in 1 .. Len(ps) : ps[i][1] = b}
         IN  IF k = {} THEN -1 ELSE ps[CHOOSE i \in k : TRUE][2]
(* One pass over a canonically ordered sequence.  out is what has been     *)
(* kept, st the place in it of the last starter (0 if none), last the      *)
(* class of the last character kept after that starter, or -1 if none was: *)
(* a character is blocked from the starter if something between them has   *)
(* its class or a higher one, or is a starter.                             *)
Compose(s) ==
    Fold(LAMBDA a, c :
           LET k == Ccc(c)
               blocked == a.st = 0 \/ (a.last # -1 /\ (a.last >= k))
               p == IF blocked THEN -1 ELSE Composite(a.out[a.st], c)
           IN  IF p >= 0 THEN [a EXCEPT !.out[a.st] = p]
               ELSE IF k = 0
               THEN [out |-> Append(a.out, c), st |-> Len(a.out) + 1, last |-> -1]
               ELSE [out |-> Append(a.out, c), st |-> a.st, last |-> k],
         [out |-> <<>>, st |-> 0, last |-> -1], s).out
NFC(s) == Compose(NFD(s))

\* the longest run of marks
LongestMarks(s) ==
    Fold(LAMBDA a, c : LET n == IF Ccc(c) = 0 THEN 0 ELSE a.n + 1
                       IN  [n |-> n, m |-> IF n > a.m THEN n ELSE a.m],
         [n |-> 0, m |-> 0], s).m

(* ----------------------------------------------------------- quick check *)
\* no and maybe are single bits; answers are 0, no, maybe
Has(f, bit) == (f \div bit) % 2 = 1
Quick(s, no, maybe) ==
    Fold(LAMBDA a, c :
           LET k == Ccc(c)
               f == Flags(c)
           IN  IF a.res = no THEN a
               ELSE IF (k # 0 /\ a.last > k) \/ Has(f, no) THEN [a EXCEPT !.res = no]
               ELSE [last |-> k, res |-> IF Has(f, maybe) THEN maybe ELSE a.res],
         [last |-> 0, res |-> 0], s).res

(* ------------------------------------------------- what each call shows *)
\* what is read of a string of bytes: up to a NUL or the bound
Input(d) == LET nuls == {i \in 1 .. Len(d) : d[i] = 0}
            IN  IF nuls = {} THEN d
                ELSE SubSeq(d, 1, (CHOOSE i \in nuls : \A j \in nuls : i <= j) - 1)
\* the codepoints of the longest valid prefix
PrefixCps(s) == Cps(s)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Bytes(cs) == Total([i \in 1 .. Len(cs) |-> Width(cs[i])])

\* a conversion that yields the codepoints y for the valid string s
Yields(e, y) == LET x == EncodeAll(y)
                IN  IF Len(x) + 1 <= e.size
                    THEN e.ok /\ e.n = Len(x) /\ e.r = x \o <<0>>
                    ELSE ~e.ok /\ e.err = "EOVERFLOW"
DecomposeShows(e) ==
    LET s == Input(e.d)
        cs == PrefixCps(s)
        y == NFD(cs)
    IN  IF Bytes(cs) = Len(s) THEN Yields(e, y)
        ELSE ~e.ok /\ (e.err = "EILSEQ" \/ (e.err = "EOVERFLOW" /\ Bytes(y) > e.size))
RecomposeShows(e) ==
    LET s == Input(e.d)
        cs == PrefixCps(s)
        valid == Bytes(cs) = Len(s)
        many == LongestMarks(cs) > 100
    IN  IF ~valid
        THEN ~e.ok /\ (\/ e.err = "EILSEQ"
                       \/ many
                       \/ (e.err = "EOVERFLOW" /\ (IsNFD(cs) => Bytes(Compose(cs)) > e.size)))
        ELSE IF ~IsNFD(cs) THEN TRUE            \* not asked for
        ELSE Yields(e, Compose(cs)) \/ (many /\ ~e.ok)
\* e.r: the answers for NFC, NFD, NFKC, NFKD; -1 for invalid UTF-8
Answer(s, no, maybe) ==
    LET cs == PrefixCps(s)
        q == Quick(cs, no, maybe)
    IN  IF q # no /\ Bytes(cs) # Len(s) THEN -1 ELSE q
DetectShows(e) ==
    LET s == Input(e.d)
        a == <<Answer(s, 1, 2), Answer(s, 4, 8), Answer(s, 16, 32), Answer(s, 64, 128)>>
        cs == PrefixCps(s)
    IN  /\ e.r = a
        /\ \A i \in 1 .. 4 : a[i] = -1 => e.errs[i] = "EILSEQ"
        /\ e.c = (a[1] = 0) /\ e.dc = (a[2] = 0)
        \* soundness
        /\ e.c => Bytes(cs) = Len(s) /\ NFC(cs) = cs
        /\ e.dc => Bytes(cs) = Len(s) /\ NFD(cs) = cs
=============================================================================
