------------------------------- MODULE Base64 -------------------------------
(***************************************************************************)
(* RFC 4648 base64 as the user of fsdyn sees it: encodings and decodings   *)
(* are functions; p and q are the characters for 62 and 63 (-1 means the   *)
(* standard ones).                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNat

Pad == 61
P62(p) == IF p = -1 THEN 43 ELSE p
P63(q) == IF q = -1 THEN 47 ELSE q
Sym(i, p, q) == CASE i < 26 -> 65 + i
                  [] i >= 26 /\ i < 52 -> 71 + i
                  [] i >= 52 /\ i < 62 -> i - 4
                  [] i = 62 -> P62(p)
                  [] i = 63 -> P63(q)

EncLen(n) == ((n + 2) \div 3) * 4
ByteAt(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
EncChar(s, k, p, q) ==          \* k counts from 0
    LET g == 3 * (k \div 4)
        left == Len(s) - g
        a == ByteAt(s, g + 1)
        b == ByteAt(s, g + 2)
        c == ByteAt(s, g + 3)
    IN  CASE k % 4 = 0 -> Sym(a \div 4, p, q)
          [] k % 4 = 1 -> Sym(((a % 4) * 16) + (b \div 16), p, q)
          [] k % 4 = 2 -> IF left < 2 THEN Pad
                          ELSE Sym(((b % 16) * 4) + (c \div 64), p, q)
          [] k % 4 = 3 -> IF left < 3 THEN Pad ELSE Sym(c % 64, p, q)
Encode(s, p, q) == [k \in 1 .. EncLen(Len(s)) |-> EncChar(s, k - 1, p, q)]

White(c) == c \in {32, 9, 10, 12, 13}
Value(c, p, q) ==
    CASE c = P62(p) -> 62
      [] c = P63(q) -> 63
      [] c >= 65 /\ c <= 90 -> c - 65
      [] c >= 97 /\ c <= 122 -> c - 71
      [] c >= 48 /\ c <= 57 -> c + 4
      [] OTHER -> -1

\* the text proper: up to the limit (-1: none) or a NUL
RECURSIVE UpToNul(_, _)
UpToNul(s, i) == IF i > Len(s) THEN Len(s)
                 ELSE IF s[i] = 0 THEN i - 1 ELSE UpToNul(s, i + 1)
Text(s, limit) ==
    LET n == UpToNul(s, 1)
    IN  SubSeq(s, 1, IF limit >= 0 /\ limit < n THEN limit ELSE n)

(* A text is an encoding if it is data characters, then padding, then      *)
(* nothing; where whitespace is ignored it may stand anywhere but within   *)
(* the padding.                                                            *)
NotWhite(c) == ~White(c)
FirstPad(t) == IF \E i \in 1 .. Len(t) : t[i] = Pad
               THEN CHOOSE i \in 1 .. Len(t) :
                        t[i] = Pad /\ \A j \in 1 .. i - 1 : t[j] # Pad
               ELSE Len(t) + 1
Data(t, wsp) == LET d == SubSeq(t, 1, FirstPad(t) - 1)
                IN  IF wsp THEN SelectSeq(d, NotWhite) ELSE d
Rest(t) == SubSeq(t, FirstPad(t), Len(t))
DecodedByte(v, k) ==            \* k counts from 1; v: values of the characters
    LET i == (4 * ((k - 1) \div 3)) + ((k - 1) % 3) + 1
        a == v[i]
        b == v[i + 1]
    IN  CASE (k - 1) % 3 = 0 -> (a * 4) + (b \div 16)
          [] (k - 1) % 3 = 1 -> ((a % 16) * 16) + (b \div 4)
          [] (k - 1) % 3 = 2 -> ((a % 4) * 64) + b
BytesOf(n) == (n * 6) \div 8
\* [ok |-> is it an encoding, d |-> the bytes]
Decode(t, p, q, wsp) ==
    LET d == Data(t, wsp)
        v == [i \in 1 .. Len(d) |-> Value(d[i], p, q)]
        n == Len(v)
        pad == IF n % 4 = 2 THEN 2 ELSE IF n % 4 = 3 THEN 1 ELSE 0
        r == Rest(t)
        ok == /\ \A i \in 1 .. n : v[i] >= 0
              /\ n % 4 # 1
              /\ n % 4 = 2 => v[n] % 16 = 0
              /\ n % 4 = 3 => v[n] % 4 = 0
              /\ Len(r) >= pad
              /\ \A i \in 1 .. pad : r[i] = Pad
              /\ \A i \in pad + 1 .. Len(r) : wsp /\ White(r[i])
    IN  IF ok THEN [ok |-> TRUE, d |-> [k \in 1 .. BytesOf(n) |-> DecodedByte(v, k)]]
        ELSE [ok |-> FALSE, d |-> <<>>]

Min(a, b) == IF a < b THEN a ELSE b
Prefix(s, n) == SubSeq(s, 1, n)

(* ------------------------------------------------- what each call shows *)
EncodeShows(e) ==
    LET x == Encode(e.d, e.p, e.q)
        n == Min(Len(x), e.size - 1)
    IN  /\ e.r = Len(x)
        /\ IF e.size = 0 THEN e.buf = <<165>>
           ELSE Prefix(e.buf, n + 1) = Prefix(x, n) \o <<0>>
SimpleShows(e) == e.r = <<Encode(e.d, -1, -1)>>
SizeShows(e) ==
    LET x == Scale(DivN(AddN(e.n, <<2>>), 3), 4)
    IN  IF LtN(x, Pow64) THEN ~e.over /\ EqN(e.r, x) ELSE e.over
DecodeShows(e) ==
    LET x == Decode(Text(e.d, e.limit), e.p, e.q, e.wsp)
        n == Min(Len(x.d), e.size)
    IN  IF x.ok
        THEN /\ e.r = Len(x.d)
             /\ Prefix(e.buf, n) = Prefix(x.d, n)
             /\ \A i \in n + 1 .. e.size : e.buf[i] = 165
        ELSE e.r = -1 /\ e.err = "EILSEQ"
DecodeSimpleShows(e) ==
    LET x == Decode(e.d, -1, -1, TRUE)
    IN  IF x.ok THEN e.ok /\ e.r = x.d \o <<0>>
        ELSE ~e.ok /\ e.err = "EILSEQ"
TablesShow(e) ==
    /\ e.e = [i \in 1 .. 64 |-> Sym(i - 1, -1, -1)]
    /\ e.d = [i \in 1 .. 256 |->
                 CASE i = 1 -> -4
                   [] i - 1 = Pad -> -3
                   [] White(i - 1) -> -2
                   [] OTHER -> Value(i - 1, -1, -1)]
=============================================================================
