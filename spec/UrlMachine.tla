----------------------------- MODULE UrlMachine -----------------------------
(***************************************************************************)
(* The two passes of the URL decoder of src/charstr.c over every text of a *)
(* small alphabet: the first finds out the length, or that the text is not *)
(* legal, the second writes that many bytes and a terminator.  Also, every *)
(* text taken as a plain string survives encoding and decoding.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Url
CONSTANTS MaxLen
VARIABLES txt, pc, place, length, buf
vars == <<txt, pc, place, length, buf>>
\* % + 2 B f G space 255
Alphabet == {37, 43, 50, 66, 102, 71, 32, 255}
Plus == TRUE
\* the text with its terminator
At(i) == IF i <= Len(txt) THEN txt[i] ELSE 0

Init == txt = <<>> /\ pc = "type" /\ place = 1 /\ length = 0 /\ buf = <<>>
Type == /\ pc = "type" /\ Len(txt) < MaxLen
        /\ \E c \in Alphabet : txt' = Append(txt, c)
        /\ UNCHANGED <<pc, place, length, buf>>
Start == pc = "type" /\ pc' = "measure" /\ UNCHANGED <<txt, place, length, buf>>
Measure ==
    /\ pc = "measure"
    /\ IF At(place) = 0
       THEN pc' = "write" /\ place' = 1 /\ UNCHANGED length
       ELSE IF At(place) # 37
       THEN place' = place + 1 /\ length' = length + 1 /\ UNCHANGED pc
       ELSE IF At(place + 1) \notin Hex \/ At(place + 2) \notin Hex
       THEN pc' = "refused" /\ UNCHANGED <<place, length>>
       ELSE place' = place + 3 /\ length' = length + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<txt, buf>>
Write ==
    /\ pc = "write"
    /\ LET c == At(place)
       IN  CASE c = 0 -> pc' = "done" /\ buf' = Append(buf, 0) /\ UNCHANGED place
             [] c = 43 -> buf' = Append(buf, IF Plus THEN 32 ELSE 43)
                          /\ place' = place + 1 /\ UNCHANGED pc
             [] c = 37 -> buf' = Append(buf, (HexValue(At(place + 1)) * 16)
                                             + HexValue(At(place + 2)))
                          /\ place' = place + 3 /\ UNCHANGED pc
             [] OTHER -> buf' = Append(buf, c) /\ place' = place + 1 /\ UNCHANGED pc
    /\ UNCHANGED <<txt, length>>
Next == Type \/ Start \/ Measure \/ Write
Spec == Init /\ [][Next]_vars

Fits == Len(buf) <= length + 1
InText == pc \in {"measure", "write"} => place <= Len(txt) + 1
Refuses == pc = "refused" => ~Legal(txt)
Decodes == pc = "done" => Legal(txt) /\ buf = Decode(txt, Plus) \o <<0>>

\* encoders: every pair of disjoint sets of a few interesting bytes
Encoders == {e \in [res : SUBSET {32, 66, 37, 255}, unres : SUBSET {32, 255, 37, 43}] :
                e.res \cap e.unres = {}}
RECURSIVE Codes(_, _)
Codes(e, s) == IF s = <<>> THEN {<<>>}
               ELSE {c \o r : c \in ByteCodes(e, Head(s)), r \in Codes(e, Tail(s))}
RoundTrip == (pc = "type" /\ Len(txt) <= 3) =>
    \A e \in Encoders :
        \A r \in Codes(e, txt) :
            /\ IsCode(e, txt, r)
            /\ Reversible(e) => Legal(r) /\ Decode(r, TRUE) = txt
Emit == pc' = "measure" => PrintT(ToJson(<<"TEXT", txt'>>))
=============================================================================
