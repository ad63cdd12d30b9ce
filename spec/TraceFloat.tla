----------------------------- MODULE TraceFloat -----------------------------
EXTENDS TraceBase, Binary64
vars == <<l>>
Init == CaseInit
Next == (Is("flt") /\ AllShow(Ev)) \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
