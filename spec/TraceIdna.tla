----------------------------- MODULE TraceIdna -----------------------------
EXTENDS TraceBase, Idna
vars == <<l>>
Init == CaseInit
Next == \/ Is("idna") /\ IdnaShows(Ev)
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
