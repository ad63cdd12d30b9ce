-------------------------------- MODULE Idna --------------------------------
(***************************************************************************)
(* UTS #46 (non-transitional, STD3 rules) and RFC 3492.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Normalize

(* ------------------------------------------------------------- punycode *)
Digit(n) == IF n < 26 THEN 97 + n ELSE 22 + n
Threshold(k, bias) == IF k <= bias THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias
RECURSIVE VarInt(_, _, _)
VarInt(q, k, bias) ==
    LET t == Threshold(k, bias)
    IN  IF q < t THEN <<Digit(q)>>
        ELSE <<Digit(t + ((q - t) % (36 - t)))>> \o VarInt((q - t) \div (36 - t), k + 36, bias)
RECURSIVE AdaptFrom(_, _)
AdaptFrom(d, k) == IF d > 455 THEN AdaptFrom(d \div 35, k + 36)
                   ELSE k + ((36 * d) \div (d + 38))
Adapt(delta, points, first) ==
    LET d == IF first THEN delta \div 700 ELSE delta \div 2
    IN  AdaptFrom(d + (d \div points), 0)
\* one scan over the label for the codepoint n
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(s, i, n, delta, bias, h, b, out) ==
    IF i > Len(s) THEN [delta |-> delta, bias |-> bias, h |-> h, out |-> out]
    ELSE IF s[i] < n THEN Scan(s, i + 1, n, delta + 1, bias, h, b, out)
    ELSE IF s[i] > n THEN Scan(s, i + 1, n, delta, bias, h, b, out)
    ELSE Scan(s, i + 1, n, 0, Adapt(delta, h + 1, h = b), h + 1, b,
              out \o VarInt(delta, 36, bias))
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE PunyFrom(_, _, _, _, _, _, _)
PunyFrom(s, n, delta, bias, h, b, out) ==
    LET left == {s[i] : i \in {j \in 1 .. Len(s) : s[j] >= n}}
    IN  IF left = {} THEN out
        ELSE LET m == MinOf(left)
                 r == Scan(s, 1, m, delta + ((m - n) * (h + 1)), bias, h, b, out)
             IN  PunyFrom(s, m + 1, r.delta + 1, r.bias, r.h, b, r.out)
Basic(s) == SelectSeq(s, LAMBDA c : c < 128)
Punycode(s) ==
    LET a == Basic(s)
    IN  PunyFrom(s, 128, 0, 72, Len(a), Len(a),
                 IF a = <<>> THEN <<>> ELSE Append(a, 45))

(* ----------------------------------------------------------------- names *)
AsciiLower(b) == IF b \in 65 .. 90 THEN b + 32 ELSE b
AllAscii(s) == \A i \in 1 .. Len(s) : s[i] < 128
LowerAscii(s) == [i \in 1 .. Len(s) |-> AsciiLower(s[i])]
Refused == {4, 5, 6}        \* the three kinds of disallowed
Allowed(cs) == \A i \in 1 .. Len(cs) : Status(cs[i]) \notin Refused
MapOne(c) == LET st == Status(c)
             IN  CASE st = 1 -> MappingOf(c) [] st = 2 -> <<>> [] OTHER -> <<c>>
Map(cs) == Concat([i \in 1 .. Len(cs) |-> MapOne(cs[i])])
Labels(cs) ==
    LET r == Fold(LAMBDA a, c : IF c = 46 THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                ELSE [a EXCEPT !.cur = Append(@, c)],
                  [done |-> <<>>, cur |-> <<>>], cs)
    IN  Append(r.done, r.cur)
\* more codepoints than that cannot fit in 63 characters
EncodeLabel(b) == IF AllAscii(b) THEN LowerAscii(b)
                  ELSE <<120, 110, 45, 45>> \o LowerAscii(Punycode(b))
LabelFits(b) == Len(b) <= 63 /\ Len(EncodeLabel(b)) <= 63
JoinDots(bs) == Concat([k \in 1 .. Len(bs) |-> IF k = 1 THEN bs[k] ELSE <<46>> \o bs[k]])
\* a name ends in a dot if its last label is empty
NameFits(r) == IF r # <<>> /\ r[Len(r)] = 46 THEN Len(r) <= 254 ELSE Len(r) <= 253

(* Surely valid labels: the criteria of UTS #46 4.1.  Joiners are good     *)
(* after a virama (class 9); where only joining types could tell, this     *)
(* does not ask for acceptance.                                            *)
JoinersGood(b) == \A i \in 1 .. Len(b) :
    b[i] \in {8204, 8205} => i > 1 /\ Ccc(b[i - 1]) = 9
(* RFC 5893: in a name with right-to-left characters every label must keep *)
(* to these rules.                                                         *)
RtlLabel(b) == \E i \in 1 .. Len(b) : Bidi(b[i]) \in {1, 2, 3}
LastBase(b) == LET k == {i \in 1 .. Len(b) : Bidi(b[i]) # 10}
               IN  IF k = {} THEN 11 ELSE Bidi(b[CHOOSE i \in k : \A j \in k : j <= i])
BidiGood(b) ==
    LET kinds == {Bidi(b[i]) : i \in 1 .. Len(b)}
    IN  \/ /\ Bidi(b[1]) \in {1, 2}
           /\ kinds \subseteq {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
           /\ LastBase(b) \in {1, 2, 3, 4}
           /\ ~({3, 4} \subseteq kinds)
        \/ /\ Bidi(b[1]) = 0
           /\ kinds \subseteq {0, 4, 5, 6, 7, 8, 9, 10}
           /\ LastBase(b) \in {0, 4}
GoodLabel(b) ==
    /\ b # <<>>
    /\ b[1] # 45 /\ b[Len(b)] # 45
    /\ ~(Len(b) >= 4 /\ b[3] = 45 /\ b[4] = 45)
    /\ ~Mark(b[1])
    /\ JoinersGood(b)
    /\ \A i \in 1 .. Len(b) : Status(b[i]) \in {0, 3}
GoodName(bs) ==
    LET n == IF Len(bs) > 1 /\ bs[Len(bs)] = <<>> THEN Len(bs) - 1 ELSE Len(bs)
    IN  /\ n >= 1 /\ \A k \in 1 .. n : GoodLabel(bs[k])
        /\ (\E k \in 1 .. n : RtlLabel(bs[k])) => \A k \in 1 .. n : BidiGood(bs[k])

\* e.r is <<>> (refused) or <<bytes>>
IdnaShows(e) ==
    IF AllAscii(e.d) THEN e.r = <<LowerAscii(e.d)>>
    ELSE IF ~Valid(e.d) THEN e.r = <<>>
    ELSE LET cs == NFC(Cps(e.d))
         IN  IF ~Allowed(cs) THEN e.r = <<>>
             ELSE LET m == Map(cs)
                      bs == Labels(NFC(m))
                  IN  IF \E k \in 1 .. Len(bs) : ~LabelFits(bs[k]) THEN e.r = <<>>
                      ELSE LET x == JoinDots([k \in 1 .. Len(bs) |-> EncodeLabel(bs[k])])
                           IN  IF ~NameFits(x) THEN e.r = <<>>
                               ELSE \/ e.r = <<x>>
                                    \/ e.r = <<>>
                                       /\ ~(GoodName(bs) /\ LongestMarks(NFD(m)) <= 100)
=============================================================================
