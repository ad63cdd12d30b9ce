----------------------------- MODULE TraceAlloc -----------------------------
EXTENDS TraceBase, Alloc
VARIABLES cur, counter
vars == <<l, cur, counter>>
\* the driver does not reinstall anything between cases
Init == CaseInit /\ cur = -9 /\ counter = -9
Set == Is("mset") /\ Ev.who = Ev.i /\ Ev.calls = <<>> /\ cur' = Ev.i
       /\ UNCHANGED counter
CSet == Is("cset") /\ Ev.got = Ev.i /\ counter' = Ev.i /\ UNCHANGED cur
Skew == /\ Is("skew") /\ Ev.got = counter
        /\ Ev.calls = <<<<counter, Ev.n>>>>
        /\ UNCHANGED <<cur, counter>>
Alloc_ == Is("malloc") /\ Ev.who = cur /\ AllocShows(cur, Ev) /\ UNCHANGED <<cur, counter>>
Realloc == Is("mrealloc") /\ Ev.who = cur /\ ReallocShows(cur, Ev) /\ UNCHANGED <<cur, counter>>
Free == Is("mfree") /\ Ev.who = cur /\ FreeShows(cur, Ev) /\ UNCHANGED <<cur, counter>>
Calloc == Is("mcalloc") /\ Ev.who = cur /\ CallocShows(cur, Ev) /\ UNCHANGED <<cur, counter>>
Default == Is("mdefault") /\ Ev.ok /\ cur' = 0 /\ UNCHANGED counter
Next == \/ Set \/ CSet \/ Skew \/ Alloc_ \/ Realloc \/ Free \/ Calloc \/ Default
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
