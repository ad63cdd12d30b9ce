----------------------------- MODULE TraceKeys -----------------------------
EXTENDS TraceBase, Keys
vars == <<l>>
Init == CaseInit
\* however long: the same hash elsewhere, another one for other content
Long == Is("long") /\ Ev.f = "hash" /\ Ev.r = <<1, 1>>
Next == \/ Long
        \/ Is("box") /\ BoxShows(Ev)
        \/ Is("hash") /\ HashShows(Ev)
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
