----------------------------- MODULE RepeatsMC -----------------------------
(***************************************************************************)
(* The law on which Repeats rests.  For each function, each unit p and     *)
(* each head h and tail t over small alphabets: if the result for h p^Few  *)
(* t has a part that is repeated Few times where the p's are, then the     *)
(* result for h p^n t has it n times, and is the same otherwise.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Repeats
B == INSTANCE Base64
U == INSTANCE Utf8
W == INSTANCE Url
S == INSTANCE Strings

VARIABLES f, h, p, t, n
vars == <<f, h, p, t, n>>

Flat(ss) == Concat([i \in 1 .. Len(ss) |-> Append(ss[i], 0)])
Sure(s) == Concat([i \in 1 .. Len(s) |->
                      CHOOSE c \in W!ByteCodes(W!None, s[i]) : TRUE])
F(g, s) ==
    CASE g = "enc" -> B!Encode(s, -1, -1)
      [] g = "dec" -> B!Decode(s, -1, -1, TRUE).d
      [] g = "san" -> U!Sanitize(s)
      [] g = "url" -> Sure(s)
      [] g = "unurl" -> IF W!Legal(s) THEN W!Decode(s, TRUE) ELSE <<>>
      [] g = "split" -> Flat(S!Split(s, <<44>>, 1000))
      [] g = "str" -> Flat(S!Split(s, <<44, 44>>, 1000))
      [] g = "atoms" -> Flat(S!Atoms(s))
      [] g = "strip" -> S!Strip(s)
      [] g = "lower" -> S!LowerAll(s)
Alphabet(g) ==
    CASE g = "enc" -> {0, 255}
      [] g = "dec" -> {65, 56, 32}
      [] g = "san" -> {65, 128, 194, 224, 240}
      [] g \in {"url", "lower"} -> {32, 65, 255}
      [] g = "unurl" -> {37, 43, 50, 53}
      [] g \in {"split", "str"} -> {44, 65}
      [] g \in {"atoms", "strip"} -> {32, 65}
Seqs(A, m) == UNION {[1 .. k -> A] : k \in 0 .. m}
Units(g) ==
    CASE g = "enc" -> [1 .. 3 -> Alphabet(g)]
      [] g = "dec" -> {x \in [1 .. 4 -> Alphabet(g)] \cup [1 .. 5 -> Alphabet(g)] :
                          Len(SelectSeq(x, LAMBDA c : c # 32)) = 4}
      [] g = "san" -> Seqs(Alphabet(g), 2) \ {<<>>}
      \* a run of delimiters of two bytes is read differently every other time
      [] g = "str" -> {x \in Seqs(Alphabet(g), 3) : 65 \in {x[i] : i \in DOMAIN x}}
      [] OTHER -> Seqs(Alphabet(g), 3) \ {<<>>}
Heads(g) == IF g \in {"enc", "dec"} THEN {<<>>} ELSE Seqs(Alphabet(g), 1)
Tails(g) ==
    CASE g = "enc" -> Seqs(Alphabet(g), 2)
      [] g = "dec" -> {<<>>, <<65, 65>> \o <<61, 61>>, <<65, 56, 56, 61>>, <<32>>, <<65>>}
      [] OTHER -> Seqs(Alphabet(g), 2)

Init == /\ f \in {"enc", "dec", "san", "url", "unurl", "split", "str", "atoms",
                  "strip", "lower"}
        /\ h \in Heads(f) /\ p \in Units(f) /\ t \in Tails(f)
        /\ n = Few
Next == n < Few + 3 /\ n' = n + 1 /\ UNCHANGED <<f, h, p, t>>
Spec == Init /\ [][Next]_vars

Short_(k) == h \o Times(p, k) \o t
(* The parts of length k repeated Few times from place a + 1 on, and no    *)
(* longer than what the unit can account for.                              *)
Repeated(x, a, k) ==
    /\ a + (Few * k) <= Len(x)
    /\ \A i \in 1 .. (Few - 1) * k : x[a + i + k] = x[a + i]
Law == LET x == F(f, Short_(Few))
           y == F(f, Short_(n))
           k == (Len(F(f, Short_(Few + 1))) - Len(x))
       IN  k > 0 =>
            \A a \in 0 .. Len(x) :
              Repeated(x, a, k) =>
                y = SubSeq(x, 1, a) \o Times(SubSeq(x, a + 1, a + k), n)
                    \o SubSeq(x, a + (Few * k) + 1, Len(x))
=============================================================================
