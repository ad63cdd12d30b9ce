--------------------------- MODULE RepeatsTextMC ---------------------------
(***************************************************************************)
(* The law of RepeatsMC for normalization: units begin with a starter that *)
(* composes with nothing before it; or are runs of marks.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Normalize
R == INSTANCE Repeats
VARIABLES f, p, t, n
vars == <<f, p, t, n>>
Few == R!Few
First == {97, 233, 44032, 4352, 8491}
More == {97, 769, 803, 4449, 4520}
Units == {<<a>> : a \in First} \cup {<<a, b>> : a \in First, b \in More}
         \cup {<<a, b, c>> : a \in {97, 4352}, b \in More, c \in {769, 803, 4520}}
Tails == {<<>>, <<97>>, <<115, 803, 775>>, <<115, 775, 803>>}
F(g, s) == CASE g = "nfd" -> NFD(s)
             [] g = "nfc" -> NFC(s)
             [] g = "quick" -> <<Quick(s, 1, 2), Quick(s, 4, 8), Quick(s, 16, 32), Quick(s, 64, 128)>>
Init == f \in {"nfd", "nfc", "quick"} /\ p \in Units /\ t \in Tails /\ n = Few
Next == n < Few + 2 /\ n' = n + 1 /\ UNCHANGED <<f, p, t>>
Spec == Init /\ [][Next]_vars
Law == LET x == F(f, R!Times(p, Few) \o t)
           y == F(f, R!Times(p, n) \o t)
           k == (Len(F(f, R!Times(p, Few + 1) \o t)) - Len(x))
           u == SubSeq(x, 1, k)
       IN  IF f = "quick" THEN x = y
           ELSE /\ k > 0 /\ x = R!Times(u, Few) \o SubSeq(x, (Few * k) + 1, Len(x))
                /\ y = R!Times(u, n) \o SubSeq(x, (Few * k) + 1, Len(x))
\* marks out of order change places however many there are
Swap == NFD(<<97>> \o R!Times(<<769>>, n) \o R!Times(<<803>>, n + 1))
        = <<97>> \o R!Times(<<803>>, n + 1) \o R!Times(<<769>>, n)
=============================================================================
