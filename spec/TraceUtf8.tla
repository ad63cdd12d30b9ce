----------------------------- MODULE TraceUtf8 -----------------------------
EXTENDS TraceBase, Utf8, Repeats
Bit(b) == IF b THEN 1 ELSE 0
Long == /\ Is("long")
        /\ \/ Ev.f = "san" /\ LongShows(Ev, Sanitize(Short(Ev.in)))
           \/ /\ Ev.f = "valid"
              /\ Ev.r = <<Bit(Valid(Short(Ev.in))), Bit(Valid(Short(Ev.in)))>>
vars == <<l>>
Init == CaseInit
Next == \/ Is("udec") /\ DecodeShows(Ev)
        \/ Is("uruns") /\ RunsShow(Ev)
        \/ Is("uvalid") /\ ValidShows(Ev)
        \/ Is("uenc") /\ EncodeShows(Ev)
        \/ Is("ublock") /\ BlockShows(Ev)
        \/ Is("unulls") /\ NowhereShows(Ev)
        \/ Is("usan") /\ SanitizeShows(Ev)
        \/ Long
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
