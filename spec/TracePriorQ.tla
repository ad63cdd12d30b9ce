---------------------------- MODULE TracePriorQ ----------------------------
(***************************************************************************)
(* Is the log of a priority queue run a behaviour of PriorQ?  With         *)
(* Locators TRUE (C08), locators and callback arguments are checked too.   *)
(***************************************************************************)
EXTENDS TraceBase, PriorQ
CONSTANT Locators
VARIABLE peeked   \* [queue -> what the last peek showed, -1 if there was a
                  \*           change since]
vars == <<l, prio, queued, qdir, peeked>>

Slots == 0 .. 7
Init == /\ CaseInit /\ prio = <<>>
        /\ queued = [q \in Slots |-> <<>>]
        /\ qdir = [q \in Slots |-> 0]
        /\ peeked = [q \in Slots |-> -1]

CbOk(e) == Locators => ~Ev.bad /\ SeenOk(Ev.q, Ev.seen, e)
Saw(r) == peeked' = [peeked EXCEPT ![Ev.q] = r]
AsPeeked == peeked[Ev.q] \in {-1, Ev.r}   \* a peek shows the next one out

TNew == Is("qnew") /\ QNew(Ev.q, Ev.dir) /\ Saw(-1)
TDel == Is("qdel") /\ QDestroy(Ev.q) /\ UNCHANGED peeked
TItem == Is("qitem") /\ NewItem(Ev.id, Ev.p) /\ UNCHANGED peeked
TEnq == Is("qenq") /\ Enqueue(Ev.q, Ev.id) /\ CbOk(Ev.id) /\ Saw(-1)
TDeq == Is("qdeq") /\ Dequeue(Ev.q, Ev.r) /\ CbOk(0) /\ AsPeeked /\ Saw(-1)
TPeek == Is("qpeek") /\ Peek(Ev.q, Ev.r) /\ CbOk(0) /\ AsPeeked /\ Saw(Ev.r)
TPop == Is("qpop") /\ PopSome(Ev.q, Ev.r) /\ CbOk(0) /\ Saw(-1)
TRem == Is("qrem") /\ RemoveByLoc(Ev.q, Ev.id, Ev.r) /\ CbOk(0) /\ Saw(-1)
TObs == /\ Is("qobs") /\ QSees(Ev.q, Ev.n, Ev.e)
        /\ Locators => LocatorsUnique(Ev.q, Ev.l)
        /\ UNCHANGED <<qvars, peeked>>
TSize == Is("qsize") /\ QSees(Ev.q, Ev.n, Ev.e) /\ UNCHANGED <<qvars, peeked>>
Next == \/ TNew \/ TDel \/ TItem \/ TEnq \/ TDeq \/ TPeek \/ TPop \/ TRem
        \/ TObs \/ TSize \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
