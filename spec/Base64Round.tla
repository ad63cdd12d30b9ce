---------------------------- MODULE Base64Round ----------------------------
(* Decoding inverts encoding, for every short byte string over edge bytes. *)
EXTENDS Integers, Sequences, Base64
CONSTANT MaxBytes
VARIABLE s
EdgeBytes == {0, 1, 3, 63, 64, 127, 128, 240, 251, 252, 255}
Init == s = <<>> \/ \E b \in 0 .. 255 : s = <<b>>
Next == Len(s) < MaxBytes /\ \E b \in EdgeBytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s
Inverts == \A pq \in {<<-1, -1>>, <<45, 95>>} :
    LET x == Encode(s, pq[1], pq[2])
    IN  /\ Len(x) = EncLen(Len(s))
        /\ Decode(x, pq[1], pq[2], FALSE) = [ok |-> TRUE, d |-> s]
=============================================================================
