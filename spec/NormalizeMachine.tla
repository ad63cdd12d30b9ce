-------------------------- MODULE NormalizeMachine --------------------------
(***************************************************************************)
(* The normalizers of src/charstr_decompose.c and src/charstr_recompose.c  *)
(* over every string of a few interacting codepoints: the decomposer       *)
(* writes full decompositions and then sorts the marks by insertion in the *)
(* buffer; the recomposer is a pipeline of two machines, a generic one     *)
(* that holds back a starter and the marks after it and a Hangul one that  *)
(* holds back one codepoint.  Room is for MaxMarks marks held back.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Normalize
CONSTANTS MaxLen, MaxMarks
VARIABLES txt, pc,
          place,                \* in what is being read
          buf, begin, last,     \* the decomposer's buffer and sorting state
          state, starter, ccs, rd,      \* the generic recomposer
          held,                 \* the Hangul recomposer: <<>> or <<codepoint>>
          out
decomp == <<buf, begin, last>>
recomp == <<state, starter, ccs, rd, held, out>>
vars == <<txt, pc, place, decomp, recomp>>
(* s, dot below (220), dot above (230), s with both, dialytika tonos       *)
(* (excluded, decomposes into two marks), Hangul L V T LV, a vowel sign    *)
(* and the starter that composes with it                                   *)
Alphabet == {115, 803, 775, 7785, 836, 4352, 4449, 4520, 44032, 2503, 2494}

Init == /\ txt = <<>> /\ pc = "type" /\ place = 1
        /\ buf = <<>> /\ begin = 1 /\ last = 0
        /\ state = "INIT" /\ starter = 0 /\ ccs = <<>> /\ rd = 0 /\ held = <<>>
        /\ out = <<>>
Type == /\ pc = "type" /\ Len(txt) < MaxLen
        /\ \E c \in Alphabet : txt' = Append(txt, c)
        /\ UNCHANGED <<pc, place, decomp, recomp>>
Start == pc = "type" /\ pc' = "decompose" /\ UNCHANGED <<txt, place, decomp, recomp>>
Decompose ==
    /\ pc = "decompose"
    /\ IF place > Len(txt)
       THEN pc' = "sort" /\ place' = 1 /\ UNCHANGED buf
       ELSE buf' = buf \o Full(txt[place]) /\ place' = place + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<txt, begin, last, recomp>>
\* move the one at place before the first of a higher class
Insert(s, p, k) ==
    LET t == CHOOSE t \in begin .. p : Ccc(s[t]) > k /\ \A u \in begin .. t - 1 : Ccc(s[u]) <= k
    IN  SubSeq(s, 1, t - 1) \o <<s[p]>> \o SubSeq(s, t, p - 1) \o SubSeq(s, p + 1, Len(s))
Sort ==
    /\ pc = "sort"
    /\ IF place > Len(buf)
       THEN pc' = "recompose" /\ place' = 1 /\ UNCHANGED <<buf, begin, last>>
       ELSE LET k == Ccc(buf[place])
            IN  /\ place' = place + 1 /\ UNCHANGED pc
                /\ IF k = 0 THEN begin' = place + 1 /\ last' = 0 /\ UNCHANGED buf
                   ELSE IF k >= last THEN last' = k /\ UNCHANGED <<buf, begin>>
                   ELSE buf' = Insert(buf, place, k) /\ UNCHANGED <<begin, last>>
    /\ UNCHANGED <<txt, recomp>>

\* one codepoint into the Hangul recomposer
Blend(a, b) == IF a \in LBase .. (LBase + 18) /\ b \in VBase .. (VBase + 20)
               THEN SBase + ((((a - LBase) * 21) + (b - VBase)) * 28)
               ELSE IF IsSyllable(a) /\ (a - SBase) % 28 = 0 /\ b \in TBase + 1 .. (TBase + 27)
               THEN a + (b - TBase) ELSE -1
Pass(c) == IF held = <<>> THEN held' = <<c>> /\ UNCHANGED out
           ELSE IF Blend(held[1], c) >= 0
           THEN held' = <<Blend(held[1], c)>> /\ UNCHANGED out
           ELSE out' = Append(out, held[1]) /\ held' = <<c>>
\* the table has no Hangul
Primary(a, b) == LET ps == ComposesOf(a)
                     k == {i \in 1 .. Len(ps) : ps[i][1] = b}
                 IN  IF k = {} THEN -1 ELSE ps[CHOOSE i \in k : TRUE][2]
Feed ==
    /\ pc = "recompose" /\ state \in {"INIT", "STARTED"} /\ place <= Len(buf)
    /\ LET c == buf[place]
           k == Ccc(c)
           blocked == \E j \in 1 .. Len(ccs) : Ccc(ccs[j]) >= k
           p == IF blocked THEN -1 ELSE Primary(starter, c)
       IN  IF state = "INIT"
           THEN /\ place' = place + 1 /\ UNCHANGED <<pc, ccs, rd>>
                /\ IF k # 0 THEN Pass(c) /\ UNCHANGED <<state, starter>>
                   ELSE state' = "STARTED" /\ starter' = c /\ UNCHANGED <<held, out>>
           ELSE IF p >= 0
           THEN starter' = p /\ place' = place + 1
                /\ UNCHANGED <<pc, state, ccs, rd, held, out>>
           ELSE IF k # 0 /\ Len(ccs) >= MaxMarks
           THEN pc' = "refused" /\ UNCHANGED <<place, recomp>>
           ELSE IF k # 0
           THEN ccs' = Append(ccs, c) /\ place' = place + 1
                /\ UNCHANGED <<pc, state, starter, rd, held, out>>
           ELSE /\ Pass(starter) /\ starter' = c /\ state' = "DELIVERING" /\ rd' = 0
                /\ place' = place + 1 /\ UNCHANGED <<pc, ccs>>
    /\ UNCHANGED <<txt, decomp>>
Deliver ==
    /\ pc = "recompose" /\ state \in {"DELIVERING", "ENDING"}
    /\ IF rd < Len(ccs)
       THEN Pass(ccs[rd + 1]) /\ rd' = rd + 1 /\ UNCHANGED <<state, ccs>>
       ELSE /\ state' = IF state = "ENDING" THEN "TERMINATED" ELSE "STARTED"
            /\ ccs' = <<>> /\ rd' = 0 /\ UNCHANGED <<held, out>>
    /\ UNCHANGED <<txt, pc, place, decomp, starter>>
Terminate ==
    /\ pc = "recompose" /\ state \in {"INIT", "STARTED"} /\ place > Len(buf)
    /\ IF state = "INIT" THEN state' = "TERMINATED" /\ UNCHANGED <<rd, held, out>>
       ELSE state' = "ENDING" /\ rd' = 0 /\ Pass(starter)
    /\ UNCHANGED <<txt, pc, place, decomp, starter, ccs>>
Flush ==
    /\ pc = "recompose" /\ state = "TERMINATED"
    /\ pc' = "done" /\ out' = out \o held /\ held' = <<>>
    /\ UNCHANGED <<txt, place, decomp, state, starter, ccs, rd>>
Next == Type \/ Start \/ Decompose \/ Sort \/ Feed \/ Deliver \/ Terminate \/ Flush
Spec == Init /\ [][Next]_vars

Decomposes == pc = "recompose" => buf = NFD(txt)
Recomposes == pc = "done" => out = NFC(txt)
Refuses == pc = "refused" => LongestMarks(buf) > MaxMarks
\* laws of the forms themselves
Idempotent == pc = "done" => /\ NFD(buf) = buf /\ NFC(out) = out
                             /\ NFD(out) = buf /\ NFC(buf) = out
\* the answers of the quick check
QuickSound == pc = "type" =>
    /\ Quick(txt, 1, 2) = 0 => NFC(txt) = txt
    /\ Quick(txt, 1, 2) = 1 => NFC(txt) # txt
    /\ Quick(txt, 4, 8) = 0 => NFD(txt) = txt
    /\ Quick(txt, 4, 8) = 4 => NFD(txt) # txt
    /\ Quick(txt, 4, 8) # 8
\* every step forward
Measured == Len(out) <= Len(buf)
Emit == (pc = "type" /\ pc' = "decompose") => PrintT(ToJson(<<"CPS", txt>>))
=============================================================================
