------------------------------ MODULE PriorQ ------------------------------
(***************************************************************************)
(* What a user of fsdyn's priority queues sees.  Elements are numbered;    *)
(* prio[e] is the priority of element e; queued[q][e]                      *)
(* says how many times e is in queue q at the moment.  What happens to one *)
(* queue leaves the others alone.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES prio,    \* sequence of priorities
          queued,  \* [queue -> sequence of counts]
          qdir     \* [queue -> 1 if the lowest goes first, -1 if the highest
                   \*           does (that is up to the user's comparison),
                   \*           0 if there is no such queue]
qvars == <<prio, queued, qdir>>

QLive(q) == qdir[q] # 0

Items == 1 .. Len(prio)
InQueue(q) == {e \in Items : queued[q][e] > 0}
RECURSIVE Sum(_, _)
Sum(s, i) == IF i = 0 THEN 0 ELSE s[i] + Sum(s, i - 1)
QSize(q) == Sum(queued[q], Len(prio))
None == [e \in Items |-> 0]

\* e may go before f
Before(q, e, f) == qdir[q] * prio[e] <= qdir[q] * prio[f]
\* e may be served: nothing queued goes before it
Best(q, e) == e \in InQueue(q) /\ \A f \in InQueue(q) : Before(q, e, f)

QNew(q, d) ==
           /\ ~QLive(q) /\ d \in {-1, 1} /\ qdir' = [qdir EXCEPT ![q] = d]
           /\ queued' = [queued EXCEPT ![q] = None]
           /\ UNCHANGED prio
QDestroy(q) == /\ QLive(q) /\ qdir' = [qdir EXCEPT ![q] = 0]
               /\ queued' = [queued EXCEPT ![q] = None]
               /\ UNCHANGED prio
NewItem(e, p) == /\ e = Len(prio) + 1
                 /\ prio' = Append(prio, p)
                 /\ queued' = [q \in DOMAIN queued |-> Append(queued[q], 0)]
                 /\ UNCHANGED qdir
Enqueue(q, e) == /\ QLive(q) /\ e \in Items
                 /\ queued' = [queued EXCEPT ![q][e] = @ + 1]
                 /\ UNCHANGED <<prio, qdir>>
TakeOut(q, e) == /\ queued' = [queued EXCEPT ![q][e] = @ - 1]
                 /\ UNCHANGED <<prio, qdir>>
\* r is the element returned, 0 for NULL
Dequeue(q, r) == /\ QLive(q)
                 /\ IF InQueue(q) = {} THEN r = 0 /\ UNCHANGED qvars
                    ELSE Best(q, r) /\ TakeOut(q, r)
Peek(q, r) == /\ QLive(q) /\ UNCHANGED qvars
              /\ IF InQueue(q) = {} THEN r = 0 ELSE Best(q, r)
PopSome(q, r) == /\ QLive(q)
                 /\ IF InQueue(q) = {} THEN r = 0 /\ UNCHANGED qvars
                    ELSE r \in InQueue(q) /\ TakeOut(q, r)
\* removal by the locator last reported for e
RemoveByLoc(q, e, r) == QLive(q) /\ e \in InQueue(q) /\ r = e /\ TakeOut(q, e)

QSees(q, n, empty) == QLive(q) /\ n = QSize(q) /\ empty = (QSize(q) = 0)
\* loc[e]: the locator last reported for e (0: none so far)
LocatorsUnique(q, loc) ==
    /\ \A e \in InQueue(q) : loc[e] # 0
    /\ Cardinality({loc[e] : e \in InQueue(q)}) = Cardinality(InQueue(q))
\* the callbacks saw these elements during an operation that entered e (or 0)
SeenOk(q, seen, e) == \A i \in 1 .. Len(seen) : seen[i] \in InQueue(q) \cup {e}
=============================================================================
