---------------------------- MODULE TraceBase64 ----------------------------
EXTENDS TraceBase, Base64, Repeats
Alphabet(a, c) == IF a = 0 THEN -1 ELSE c
LongText(e) == Decode(Short(e.in), Alphabet(e.a, 45), Alphabet(e.a, 95), TRUE)
Long == /\ Is("long")
        /\ \/ /\ Ev.f = "enc"
              /\ LongShows(Ev, Encode(Short(Ev.in), Alphabet(Ev.a, 45), Alphabet(Ev.a, 95)))
           \/ Ev.f = "simple" /\ LongShows(Ev, Encode(Short(Ev.in), -1, -1))
           \/ /\ Ev.f \in {"dec", "dsimple"} /\ LongText(Ev).ok
              /\ LongShows(Ev, LongText(Ev).d)
vars == <<l>>
Init == CaseInit
Next == \/ Is("enc") /\ EncodeShows(Ev)
        \/ Is("simple") /\ SimpleShows(Ev)
        \/ Is("size") /\ SizeShows(Ev)
        \/ Is("dec") /\ DecodeShows(Ev)
        \/ Is("dsimple") /\ DecodeSimpleShows(Ev)
        \/ Is("tables") /\ TablesShow(Ev)
        \/ Long
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
