------------------------------- MODULE AvlMap -------------------------------
(***************************************************************************)
(* What a user of fsdyn's AVL trees sees: any number of ordered maps and a *)
(* pool of associations that have been taken out of a tree and now belong  *)
(* to the caller.                                                          *)
(*                                                                         *)
(* An association is a triple <<k, id, v>>: k is the place of the key in   *)
(* the comparator's order, id the identity of the key object (comparing    *)
(* equal does not make two key objects the same) and v the value.  A tree  *)
(* is the sequence of its associations in increasing order of k.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES tree,   \* [slot -> sequence of associations, or NoTree]
          loose   \* [loose id -> association or Gone], a sequence

avlvars == <<tree, loose>>

NoTree == << <<-1, -1, -1>> >>
Gone   == <<-1, -1, -1>>

(* -------------------------------- ordered sequences -------------------- *)

\* number of associations with a key below (resp. not above) k
Below(m, k) == LET RECURSIVE B(_, _)
                   B(lo, hi) == IF lo >= hi THEN lo
                                ELSE LET mid == (lo + hi) \div 2
                                     IN  IF m[mid + 1][1] < k
                                         THEN B(mid + 1, hi) ELSE B(lo, mid)
               IN  B(0, Len(m))
UpTo(m, k)  == LET b == Below(m, k)
               IN  IF b < Len(m) /\ m[b + 1][1] = k THEN b + 1 ELSE b

Has(m, k)     == UpTo(m, k) > Below(m, k)
At(m, k)      == m[Below(m, k) + 1]
InsertAt(m, i, a)  == SubSeq(m, 1, i) \o <<a>> \o SubSeq(m, i + 1, Len(m))
RemoveAt(m, i)     == SubSeq(m, 1, i - 1) \o SubSeq(m, i + 1, Len(m))

PutIn(m, a) == IF Has(m, a[1])
               THEN IF At(m, a[1])[3] = a[3] THEN m
                    ELSE [m EXCEPT ![Below(m, a[1]) + 1] = a]
               ELSE InsertAt(m, Below(m, a[1]), a)
Without(m, k) == IF Has(m, k) THEN RemoveAt(m, Below(m, k) + 1) ELSE m

\* identities, 0 for none
IdAt(m, i)    == IF i >= 1 /\ i <= Len(m) THEN m[i][2] ELSE 0
Get(m, k)          == IF Has(m, k) THEN At(m, k)[2] ELSE 0
GetBefore(m, k)     == IdAt(m, Below(m, k))
GetOnOrBefore(m, k) == IdAt(m, UpTo(m, k))
GetAfter(m, k)      == IdAt(m, UpTo(m, k) + 1)
GetOnOrAfter(m, k)  == IdAt(m, Below(m, k) + 1)

IsOrdered(m) == \A i \in 1 .. Len(m) - 1 : m[i][1] < m[i + 1][1]

(* -------------------------------- actions ------------------------------ *)
(* The parameter r of an action is what the call returns: <<>> for nothing *)
(* or <<a>> for the association a, which joins the loose ones.             *)

Live(t) == tree[t] # NoTree

LoosePlus(r) == loose' = loose \o r

NewTree(t) == /\ ~Live(t)
              /\ tree' = [tree EXCEPT ![t] = <<>>]
              /\ UNCHANGED loose

Put(t, k, id, v, r) ==
    /\ Live(t)
    /\ r = IF Has(tree[t], k) /\ At(tree[t], k)[3] # v
           THEN <<At(tree[t], k)>> ELSE <<>>
    /\ tree' = [tree EXCEPT ![t] = PutIn(@, <<k, id, v>>)]
    /\ LoosePlus(r)

Pop(t, k, r) ==
    /\ Live(t)
    /\ r = IF Has(tree[t], k) THEN <<At(tree[t], k)>> ELSE <<>>
    /\ tree' = [tree EXCEPT ![t] = Without(@, k)]
    /\ LoosePlus(r)

Remove(t, k, had) ==
    /\ Live(t)
    /\ had = Has(tree[t], k)
    /\ tree' = [tree EXCEPT ![t] = Without(@, k)]
    /\ UNCHANGED loose

PopFirst(t, r) ==
    /\ Live(t)
    /\ r = IF tree[t] = <<>> THEN <<>> ELSE <<Head(tree[t])>>
    /\ tree' = [tree EXCEPT ![t] = IF @ = <<>> THEN @ ELSE Tail(@)]
    /\ LoosePlus(r)

PopLast(t, r) ==
    LET n == Len(tree[t])
    IN  /\ Live(t)
        /\ r = IF n = 0 THEN <<>> ELSE <<tree[t][n]>>
        /\ tree' = [tree EXCEPT ![t] = IF n = 0 THEN @ ELSE SubSeq(@, 1, n - 1)]
        /\ LoosePlus(r)

Copy(t, u) == /\ Live(t) /\ ~Live(u)
              /\ tree' = [tree EXCEPT ![u] = tree[t]]
              /\ UNCHANGED loose

Destroy(t) == /\ Live(t)
              /\ tree' = [tree EXCEPT ![t] = NoTree]
              /\ UNCHANGED loose

\* the caller destroys loose association number i
DropLoose(i) == /\ i \in 1 .. Len(loose) /\ loose[i] # Gone
                /\ loose' = [loose EXCEPT ![i] = Gone]
                /\ UNCHANGED tree

(* -------------------------------- observations ------------------------- *)

Reverse(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]

\* traversal in both directions, size and emptiness
SeesTree(t, n, empty, fwd) ==
    /\ Live(t)
    /\ n = Len(tree[t]) /\ empty = (tree[t] = <<>>) /\ fwd = tree[t]
SeesBackwards(t, bwd) == bwd = Reverse(tree[t])

\* q = <<k, get, before, on or before, after, on or after>>
Answers(t, q) ==
    LET m == tree[t]  k == q[1] IN
    q = <<k, Get(m, k), GetBefore(m, k), GetOnOrBefore(m, k),
          GetAfter(m, k), GetOnOrAfter(m, k)>>

(* -------------------------------- invariants --------------------------- *)

TreesOrdered == \A t \in DOMAIN tree : tree[t] # NoTree => IsOrdered(tree[t])
=============================================================================
