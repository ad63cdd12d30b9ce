----------------------------- MODULE TraceDate -----------------------------
EXTENDS TraceBase, Calendar
vars == <<l>>
Init == CaseInit
Next == \/ Is("days") /\ DaysShow(Ev)
        \/ Is("secs") /\ SecsShow(Ev)
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
