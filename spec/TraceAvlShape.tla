--------------------------- MODULE TraceAvlShape ---------------------------
(***************************************************************************)
(* C02: the search structure, as shown by the comparator calls of lookups, *)
(* is height-balanced.  A "paths" event has, for each key of the tree, the *)
(* sequence of keys that a lookup of it is compared with (p) and how many  *)
(* comparisons were made (c).  Other events do not matter here.            *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets

vars == <<l>>

(* Fewest nodes of an AVL tree of height h: 0, 1, 2, 4, 7, 12, ...          *)
RECURSIVE MinTable(_)
MinTable(t) == IF Len(t) = 40 THEN t
               ELSE MinTable(Append(t, 1 + t[Len(t)] + t[Len(t) - 1]))
MinNodesTable == MinTable(<<0, 1>>)
\* can an AVL tree of n entries be this high
HeightOk(h, n) == h < 40 /\ MinNodesTable[h + 1] <= n

Max(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

(* Longest continuations below the node with path number i, into smaller   *)
(* and into larger keys.                                                   *)
Below(p, i) ==
    LET d == Len(p[i])
        x == p[i][d]
        sub == {j \in 1 .. Len(p) :
                    Len(p[j]) > d /\ p[j][d] = x}
    IN  [lo |-> Max({Len(p[j]) - d : j \in {j \in sub : p[j][d + 1] < x}}),
         hi |-> Max({Len(p[j]) - d : j \in {j \in sub : p[j][d + 1] > x}})]

BalancedAt(p, i) == LET b == Below(p, i)
                    IN  b.lo - b.hi \in {-1, 0, 1}

Shape == /\ Is("paths")
         /\ LET p == Ev.p  n == Len(Ev.p) IN
            /\ \A i \in 1 .. n : p[i] # <<>>
            /\ \A i \in 1 .. n : BalancedAt(p, i)
            /\ \A i \in 1 .. n : HeightOk(Len(p[i]), n)
            /\ \A i \in 1 .. n : HeightOk(Ev.c[i], n)

Counts == Is("counts") /\ HeightOk(Ev.most, Ev.n)

Other == /\ More /\ Ev.op \notin {"paths", "counts", "Crash"}
         /\ l' = l + 1

Init == CaseInit
Next == Shape \/ Counts \/ Other \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
