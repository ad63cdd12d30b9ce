-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* RFC 3629: each Unicode scalar value has exactly one encoding.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SeqFold

Scalar(c) == c \in 0 .. 55295 \/ c \in 57344 .. 1114111
Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536
          THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64),
                 128 + ((c \div 64) % 64), 128 + (c % 64)>>

Min(a, b) == IF a < b THEN a ELSE b
\* how long an encoding that starts with this byte would be
Length(b) == IF b < 128 THEN 1 ELSE IF b < 192 THEN 0 ELSE IF b < 224 THEN 2
             ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE 0
\* the codepoint it would be, if the others are continuation bytes
Candidate(s, i, n) ==
    CASE n = 1 -> s[i]
      [] n = 2 -> ((s[i] % 32) * 64) + (s[i + 1] % 64)
      [] n = 3 -> ((s[i] % 16) * 4096) + ((s[i + 1] % 64) * 64) + (s[i + 2] % 64)
      [] n = 4 -> ((s[i] % 8) * 262144) + ((s[i + 1] % 64) * 4096)
                  + ((s[i + 2] % 64) * 64) + (s[i + 3] % 64)
(* The length of the encoding at place i of s (not going past end), or 0:  *)
(* there is a scalar value whose encoding stands there.                    *)
LenAt(s, i, end) ==
    IF i > end THEN 0
    ELSE LET n == Length(s[i])
         IN  IF n = 0 \/ (i + n) - 1 > end THEN 0
             ELSE LET c == Candidate(s, i, n)
                  IN  IF Scalar(c) /\ Enc(c) = SubSeq(s, i, (i + n) - 1)
                      THEN n ELSE 0
CpAt(s, i) == Candidate(s, i, Length(s[i]))

(* Read encodings one after another.  at is where the next one begins, or  *)
(* 0 if none does there; cs is what was read.                              *)
Read(s) ==
    Fold(LAMBDA a, i :
           IF a.at # i THEN a
           ELSE LET n == LenAt(s, i, Len(s))
                IN  IF n = 0 THEN [a EXCEPT !.at = 0]
                    ELSE [at |-> i + n, cs |-> Append(a.cs, CpAt(s, i))],
         [at |-> 1, cs |-> <<>>], Places(s))
\* is s a concatenation of encodings
Valid(s) == Read(s).at # 0
\* the codepoints of a valid string, or of the longest valid prefix
Cps(s) == Read(s).cs
EncodeAll(cs) == Concat([i \in 1 .. Len(cs) |-> Enc(cs[i])])

Replacement == <<239, 191, 189>>
Sanitize(s) ==
    Fold(LAMBDA a, i :
           IF a.at # i THEN a
           ELSE LET n == LenAt(s, i, Len(s))
                IN  IF n = 0 THEN [at |-> i + 1, r |-> a.r \o Replacement]
                    ELSE [at |-> i + n, r |-> a.r \o SubSeq(s, i, (i + n) - 1)],
         [at |-> 1, r |-> <<>>], Places(s)).r

(* ------------------------------------------------- what each call shows *)
\* bound -1: no bound, the string ends in a NUL
DecodeShows(e) ==
    LET s == IF e.bound < 0 THEN e.d \o <<0>> ELSE SubSeq(e.d, 1, e.bound)
        n == LenAt(s, 1, Len(s))
    IN  /\ e.n = (IF n > 0 THEN n ELSE -1)
        /\ e.n2 = e.n
        /\ n > 0 => e.cp = CpAt(s, 1)
(* Results for p \o <<b>> \o t for every b, as runs <<from, to, length,    *)
(* codepoint, step>>.  Between the bytes at which the encoding rules       *)
(* change, the right answer too is the same or in equal steps, so it is    *)
(* enough to look at the ends of each piece.                               *)
Breaks == {0, 128, 144, 160, 192, 194, 224, 225, 237, 238, 240, 241, 244, 245, 248}
RunShows(e, r) ==
    \A b \in {r[1], r[2]} \cup {x \in Breaks : r[1] <= x /\ x <= r[2]}
             \cup {x \in {c - 1 : c \in Breaks} : r[1] <= x /\ x <= r[2]} :
        LET s == e.p \o <<b>> \o e.t
            n == LenAt(s, 1, Len(s))
        IN  /\ r[3] = (IF n > 0 THEN n ELSE -1)
            /\ n > 0 => r[4] + ((b - r[1]) * r[5]) = CpAt(s, 1)
RunsShow(e) ==
    /\ Len(e.r) > 0 /\ e.r[1][1] = 0 /\ e.r[Len(e.r)][2] = 255
    /\ \A k \in 1 .. Len(e.r) - 1 : e.r[k + 1][1] = e.r[k][2] + 1
    /\ \A k \in 1 .. Len(e.r) : RunShows(e, e.r[k])
ValidShows(e) == e.r = Valid(e.d)
EncodeShows(e) ==
    LET x == Enc(e.cp)
    IN  IF e.bound >= 0 /\ Len(x) > e.bound THEN e.n = -1
        ELSE e.n = Len(x) /\ SubSeq(e.buf, 1, e.n) = x
(* Consecutive codepoints encoded and decoded again, as runs <<from, to,   *)
(* length read, codepoint read, encoding of from>> in which only the last  *)
(* byte grows, by one each time, and so does what is read.  Within a run   *)
(* the observed encodings are thus determined by the first, and the last   *)
(* one of a right run still ends in a continuation byte (or is ASCII), so  *)
(* looking at both ends decides all.                                       *)
BlockRunShows(r) ==
    LET x == Enc(r[1])
        y == Enc(r[2])
        n == Len(x)
    IN  /\ r[5] = x /\ r[3] = n /\ r[4] = r[1]
        /\ y = [i \in 1 .. n |-> IF i = n THEN x[n] + (r[2] - r[1]) ELSE x[i]]
BlockShows(e) ==
    /\ Len(e.r) > 0 /\ e.r[1][1] = e.lo /\ e.r[Len(e.r)][2] = e.hi
    /\ \A k \in 1 .. Len(e.r) - 1 : e.r[k + 1][1] = e.r[k][2] + 1
    /\ \A k \in 1 .. Len(e.r) : BlockRunShows(e.r[k])
\* nothing to read from or to write to
NowhereShows(e) == \A i \in DOMAIN e.r : e.r[i] = 1
SanitizeShows(e) == /\ e.v /\ e.r = Sanitize(e.d) /\ e.r2 = e.r
=============================================================================
