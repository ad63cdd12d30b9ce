---------------------------- MODULE TraceFormat ----------------------------
EXTENDS TraceBase, Format
R == INSTANCE Repeats
Long ==
    /\ Is("long") /\ Ev.f = "printf"
    /\ LET s == R!Short(Ev.in)
       IN  R!LongShows(Ev, Text([k |-> CASE Ev.a = 0 -> 0 [] Ev.a = 1 -> 13 [] OTHER -> 14,
                                 s |-> s, n |-> 7,
                                 w |-> R!ShortLen(Ev.in, Ev.b)]))
vars == <<l>>
Init == CaseInit
Next == \/ Is("pf") /\ FormatShows(Ev)
        \/ Long
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
