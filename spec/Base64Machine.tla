--------------------------- MODULE Base64Machine ---------------------------
(***************************************************************************)
(* The streaming decoder of src/base64.c: it shifts characters into an     *)
(* accumulator, writes a byte whenever it holds eight bits, and looks at   *)
(* the tail when it meets padding or the end.  Fed with every text of a    *)
(* small alphabet; at each point its verdict on the text so far must be    *)
(* that of Base64!Decode, whatever the size of the output buffer.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Base64
CONSTANTS MaxLen
VARIABLES txt, bits, count, sent, bad
vars == <<txt, bits, count, sent, bad>>
\* A, B, Q, g, +, /, =, space, !
Alphabet == {65, 66, 81, 103, 43, 47, 61, 32, 33}
Wsp == {TRUE, FALSE}

\* one instance per whitespace mode, run side by side: index by wsp
Init == /\ txt = <<>>
        /\ bits = [w \in Wsp |-> 0] /\ count = [w \in Wsp |-> 0]
        /\ sent = [w \in Wsp |-> <<>>] /\ bad = [w \in Wsp |-> FALSE]

InBody == \A i \in 1 .. Len(txt) : txt[i] # Pad
Feed(w, c) ==
    LET v == Value(c, -1, -1)
        b == (bits[w] * 64) + v
        k == count[w] + 6
    IN  IF ~InBody \/ c = Pad \/ bad[w] \/ (White(c) /\ w)
        THEN <<bits[w], count[w], sent[w], bad[w]>>
        ELSE IF v < 0 THEN <<bits[w], count[w], sent[w], TRUE>>
        ELSE IF k >= 8
        THEN <<b % (2 ^ (k - 8)), k - 8, Append(sent[w], (b \div (2 ^ (k - 8))) % 256), FALSE>>
        ELSE <<b, k, sent[w], FALSE>>
Next == /\ Len(txt) < MaxLen
        /\ \E c \in Alphabet :
             /\ txt' = Append(txt, c)
             /\ bits' = [w \in Wsp |-> Feed(w, c)[1]]
             /\ count' = [w \in Wsp |-> Feed(w, c)[2]]
             /\ sent' = [w \in Wsp |-> Feed(w, c)[3]]
             /\ bad' = [w \in Wsp |-> Feed(w, c)[4]]
Spec == Init /\ [][Next]_vars

TailOk(w) ==
    LET r == Rest(txt)
        need == CASE count[w] = 0 -> 0 [] count[w] = 2 -> 1
                  [] count[w] = 4 -> 2 [] OTHER -> 99
    IN  /\ need <= Len(r)
        /\ \A i \in 1 .. need : r[i] = Pad
        /\ \A i \in need + 1 .. Len(r) : w /\ White(r[i])
Accepts(w) == ~bad[w] /\ bits[w] = 0 /\ TailOk(w)
Agrees == \A w \in Wsp :
    LET x == Decode(txt, -1, -1, w)
    IN  /\ Accepts(w) = x.ok
        /\ x.ok => x.d = sent[w]
\* what is accepted strictly is the encoding of what comes out
Canonical == Accepts(FALSE) => Encode(sent[FALSE], -1, -1) = txt
Emit == PrintT(ToJson(<<"TEXT", txt'>>))
=============================================================================
