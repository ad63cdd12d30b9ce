------------------------------ MODULE Utf8Dfa ------------------------------
(***************************************************************************)
(* The grammar of RFC 3629, section 4, as an automaton fed with one byte   *)
(* at a time: it must accept exactly the encodings that Utf8 defines.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, Utf8
VARIABLES s, st
vars == <<s, st>>
Reps == {1, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225,
         236, 237, 238, 239, 240, 241, 243, 244, 245, 247, 248, 254, 255}
\* st: what is still expected; each is a sequence of allowed ranges
Tail1 == <<128, 191>>
Step(state, b) ==
    IF state = "start" THEN
       CASE b <= 127 -> "done"
         [] b \in 194 .. 223 -> "t1"
         [] b = 224 -> "e0"
         [] b \in 225 .. 236 \/ b \in 238 .. 239 -> "t2"
         [] b = 237 -> "ed"
         [] b = 240 -> "f0"
         [] b \in 241 .. 243 -> "t3"
         [] b = 244 -> "f4"
         [] OTHER -> "dead"
    ELSE CASE state = "t1" /\ b \in 128 .. 191 -> "done"
           [] state = "t2" /\ b \in 128 .. 191 -> "t1"
           [] state = "t3" /\ b \in 128 .. 191 -> "t2"
           [] state = "e0" /\ b \in 160 .. 191 -> "t1"
           [] state = "ed" /\ b \in 128 .. 159 -> "t1"
           [] state = "f0" /\ b \in 144 .. 191 -> "t2"
           [] state = "f4" /\ b \in 128 .. 143 -> "t2"
           [] OTHER -> "dead"
Init == s = <<>> /\ st = "start"
\* one byte more after the end, so that a decoder can be seen to stop there
Next == /\ Len(s) < 5
        /\ st \notin {"dead", "over"}
        /\ \E b \in Reps : /\ s' = Append(s, b)
                           /\ st' = IF st = "done" THEN "over" ELSE Step(st, b)
Spec == Init /\ [][Next]_vars
Agrees == /\ (st = "done") = (LenAt(s, 1, Len(s)) = Len(s) /\ s # <<>>)
          /\ st \in {"dead", "t1", "t2", "t3", "e0", "ed", "f0", "f4"} =>
                LenAt(s, 1, Len(s)) = 0
          /\ st = "over" => LenAt(s, 1, Len(s)) = Len(s) - 1
          /\ st = "done" => Scalar(CpAt(s, 1)) /\ Enc(CpAt(s, 1)) = s
          /\ Valid(Sanitize(s)) /\ Sanitize(Sanitize(s)) = Sanitize(s)
          /\ Valid(s) => Sanitize(s) = s
Emit == PrintT(ToJson(<<"BYTES", s', st'>>))
=============================================================================
