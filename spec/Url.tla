-------------------------------- MODULE Url --------------------------------
(***************************************************************************)
(* URL encoding.  Each encoder is a pair of byte sets: the bytes it was    *)
(* told to reserve and those it was told to leave alone.  The default      *)
(* encoder has neither.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Hex == 48 .. 57 \cup 65 .. 70 \cup 97 .. 102
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n        \* upper case
HexValue(b) == IF b \in 48 .. 57 THEN b - 48
               ELSE IF b \in 65 .. 70 THEN b - 55 ELSE b - 87
Percent(b) == <<37, HexDigit(b \div 16), HexDigit(b % 16)>>

Alnum == 48 .. 57 \cup 65 .. 90 \cup 97 .. 122
\* - . / < > \ ^ _ ` { | ~
Plain == Alnum \cup {45, 46, 47, 60, 62, 92, 94, 95, 96, 123, 124, 126}
\* " ] } : the documentation and the code differ on these
Open == {34, 93, 125}

None == [res |-> {}, unres |-> {}]
\* the encodings of one byte that an encoder may give
ByteCodes(e, b) ==
    IF b = 0 THEN {Percent(0)}
    ELSE IF b \in e.res /\ b \in e.unres THEN {Percent(b), <<b>>}
    ELSE IF b \in e.res THEN {Percent(b)}
    ELSE IF b \in e.unres THEN {<<b>>}
    ELSE IF b = 32 THEN {<<43>>}
    ELSE IF b \in Plain THEN {<<b>>}
    ELSE IF b \in Open THEN {Percent(b), <<b>>}
    ELSE {Percent(b)}
\* r is an encoding of s by e, from place i of s and j of r on
RECURSIVE CodeFrom(_, _, _, _, _)
CodeFrom(e, s, r, i, j) ==
    IF i > Len(s) THEN j = Len(r) + 1
    ELSE \E c \in ByteCodes(e, s[i]) :
            /\ (j + Len(c)) - 1 <= Len(r)
            /\ SubSeq(r, j, (j + Len(c)) - 1) = c
            /\ CodeFrom(e, s, r, i + 1, j + Len(c))
IsCode(e, s, r) == CodeFrom(e, s, r, 1, 1)
\* can every encoding by e be undone
Reversible(e) == 37 \notin e.unres /\ 43 \notin e.unres

\* is a string a legal encoding, from place i on
RECURSIVE LegalFrom(_, _)
LegalFrom(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE IF s[i] # 37 THEN LegalFrom(s, i + 1)
    ELSE i + 2 <= Len(s) /\ s[i + 1] \in Hex /\ s[i + 2] \in Hex
         /\ LegalFrom(s, i + 3)
Legal(s) == LegalFrom(s, 1)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, plus, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF s[i] = 37
    THEN <<(HexValue(s[i + 1]) * 16) + HexValue(s[i + 2])>>
         \o DecodeFrom(s, plus, i + 3)
    ELSE <<IF s[i] = 43 /\ plus THEN 32 ELSE s[i]>> \o DecodeFrom(s, plus, i + 1)
Decode(s, plus) == DecodeFrom(s, plus, 1)
\* what a reader of NUL-terminated strings sees, terminator included
RECURSIVE UpToNul(_)
UpToNul(s) == IF s = <<>> THEN <<0>>
              ELSE IF Head(s) = 0 THEN <<0>> ELSE <<Head(s)>> \o UpToNul(Tail(s))

(* ------------------------------------------------- what each call shows *)
EncodeShows(e, ev) ==
    /\ IsCode(e, ev.d, ev.r)
    /\ IF Reversible(e) THEN ev.back = <<ev.d>>
       ELSE IF Legal(ev.r)
       THEN Len(ev.back) = 1 /\ ev.back[1] \o <<0>> = UpToNul(Decode(ev.r, TRUE))
       ELSE ev.back = <<>>
BytesShow(e, ev) ==
    /\ Len(ev.r) = 256
    /\ \A b \in 0 .. 255 : ev.r[b + 1] \in ByteCodes(e, b)
DecodeShows(ev) ==
    IF Legal(ev.d)
    THEN /\ ev.ok
         /\ LET x == Decode(ev.d, ev.plus)
            IN  ev.r = (IF ev.sized THEN x \o <<0>> ELSE UpToNul(x))
    ELSE ~ev.ok /\ ev.err = "EILSEQ"
=============================================================================
