------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* What the C formatter yields for the directives the driver uses.         *)
(***************************************************************************)
EXTENDS Integers, Sequences
RECURSIVE Digits(_, _)
Digits(n, base) == LET d == n % base
                       c == IF d < 10 THEN 48 + d ELSE 87 + d
                   IN  IF n < base THEN <<c>> ELSE Append(Digits(n \div base, base), c)
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n, 10) ELSE Digits(n, 10)
Times(c, n) == IF n <= 0 THEN <<>> ELSE [i \in 1 .. n |-> c]
PadLeft(s, w) == Times(32, w - Len(s)) \o s
PadRight(s, w) == s \o Times(32, w - Len(s))
\* a negative width means to the left
Width(s, w) == IF w >= 0 THEN PadLeft(s, w) ELSE PadRight(s, -w)
\* with leading zeros, after the sign; a negative width overrides the zeros
Zeros(n, w) == IF w < 0 THEN Width(Decimal(n), w)
               ELSE IF n < 0 THEN <<45>> \o Times(48, (w - 1) - Len(Digits(-n, 10)))
                                  \o Digits(-n, 10)
               ELSE Times(48, w - Len(Digits(n, 10))) \o Digits(n, 10)
\* precision; a negative one is none
Cut(s, w) == IF w >= 0 /\ w < Len(s) THEN SubSeq(s, 1, w) ELSE s
\* the low bits of n, two's complement
Low31(n) == IF n >= 0 THEN n ELSE (n + 2147483647) + 1
Low7(n) == LET x == Low31(n) % 128 IN IF x % 2 = 1 THEN x ELSE x + 1
Text(e) ==
    LET s == e.s  n == e.n  w == e.w
    IN  CASE e.k = 0 -> s
          [] e.k = 1 -> Decimal(n)
          [] e.k = 2 -> <<60>> \o s \o <<124>> \o Decimal(n) \o <<124>> \o s \o <<62>>
          [] e.k = 3 -> Width(s, w)
          [] e.k = 4 -> Width(Decimal(n), IF w < 0 THEN w ELSE -w) \o <<124>>
          [] e.k = 5 -> Zeros(n, w)
          [] e.k = 6 -> <<Low7(n), 122, 37>>
          [] e.k = 7 -> Cut(s, w) \o <<46>>
          [] e.k = 8 -> Digits(Low31(n), 16) \o <<32>> \o Digits(Low31(n), 10)
          [] e.k = 9 -> <<112, 108, 97, 105, 110>>
          [] e.k = 10 -> s \o s \o s \o s \o s \o s \o s \o s
          [] e.k = 11 -> LET x == Decimal(n) \o Decimal(w) IN x \o x \o x \o x
          [] e.k = 13 -> <<60>> \o s \o <<124>> \o Decimal(n) \o <<62>>
          [] e.k = 14 -> Cut(s, w)
FormatShows(e) ==
    IF e.k = 12 THEN e.r = <<>> /\ e.r2 = <<>> /\ e.err = "EILSEQ"
    ELSE e.r = <<Text(e)>> /\ e.r2 = e.r
=============================================================================
