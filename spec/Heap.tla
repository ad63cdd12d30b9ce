-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The algorithm of src/priority_queue.c: a binary heap in an array, with  *)
(* every assignment of an element to a slot reported to the relocation     *)
(* callback.  Elements 1..NItems have fixed priorities; an element is      *)
(* queued at most once here (so that it has one locator).  Slots are       *)
(* 0-based as in the code; arr[s + 1] is slot s.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Prios   \* sequence of priorities
NItems == Len(Prios)
Item == 1 .. NItems

VARIABLES arr, loc, op
vars == <<arr, loc, op>>

N == Len(arr)
Before(a, b) == Prios[a] < Prios[b]

\* raise: move the parents of slot s down until v fits; <<slot, heap, loc>>
RECURSIVE Raise(_, _, _, _)
Raise(h, lc, s, v) ==
    IF s = 0 THEN <<s, h, lc>>
    ELSE LET parent == (s - 1) \div 2 IN
         IF ~Before(v, h[parent + 1]) THEN <<s, h, lc>>
         ELSE Raise([h EXCEPT ![s + 1] = h[parent + 1]],
                    [lc EXCEPT ![h[parent + 1]] = s], parent, v)

\* lower: move children of slot s up until v fits, put v there; n is the size
RECURSIVE Lower(_, _, _, _, _)
Lower(h, lc, n, s, v) ==
    LET left == 2 * s + 1  right == 2 * s + 2 IN
    IF left >= n
    THEN <<[h EXCEPT ![s + 1] = v], [lc EXCEPT ![v] = s]>>
    ELSE LET b == IF right >= n \/ Before(h[left + 1], h[right + 1])
                  THEN left ELSE right IN
         IF ~Before(h[b + 1], v)
         THEN <<[h EXCEPT ![s + 1] = v], [lc EXCEPT ![v] = s]>>
         ELSE Lower([h EXCEPT ![s + 1] = h[b + 1]],
                    [lc EXCEPT ![h[b + 1]] = s], n, b, v)

Queued == {arr[i] : i \in 1 .. N}

Init == arr = <<>> /\ loc = [e \in Item |-> -1] /\ op = <<"init">>

Enqueue(e) ==
    /\ e \notin Queued
    /\ LET x == Raise(Append(arr, e), loc, N, e) IN
       /\ arr' = [x[2] EXCEPT ![x[1] + 1] = e]
       /\ loc' = [x[3] EXCEPT ![e] = x[1]]
    /\ op' = <<"enq", e>>

Dequeue ==
    /\ op' = <<"deq">>
    /\ IF N = 0 THEN UNCHANGED <<arr, loc>>
       ELSE IF N = 1 THEN arr' = <<>> /\ UNCHANGED loc
       ELSE LET x == Lower(arr, loc, N - 1, 0, arr[N]) IN
            arr' = SubSeq(x[1], 1, N - 1) /\ loc' = x[2]

Pop == /\ op' = <<"pop">>
       /\ arr' = IF N = 0 THEN arr ELSE SubSeq(arr, 1, N - 1)
       /\ UNCHANGED loc

Remove(e) ==
    /\ e \in Queued
    /\ op' = <<"rem", e>>
    /\ LET other == arr[N]
           x == Raise(arr, loc, loc[e], other)
           y == Lower(x[2], x[3], N - 1, x[1], other)
       IN  arr' = SubSeq(y[1], 1, N - 1) /\ loc' = y[2]

Next == \/ \E e \in Item : Enqueue(e) \/ Remove(e)
        \/ Dequeue \/ Pop
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ---------------------------- *)
HeapOrder == \A i \in 2 .. N : ~Before(arr[i], arr[i \div 2])
LocatorsRight == \A i \in 1 .. N : loc[arr[i]] = i - 1
NoDuplicates == Cardinality(Queued) = N

Counts == [e \in Item |-> IF e \in Queued THEN 1 ELSE 0]
Abs == INSTANCE PriorQ WITH prio <- Prios, queued <- <<Counts>>,
                            qdir <- <<1>>
Served == IF N = 0 THEN 0 ELSE arr[1]
StepRefines ==
    CASE op'[1] = "enq" -> Abs!Enqueue(1, op'[2])
      [] op'[1] = "deq" -> Abs!Dequeue(1, Served)
      [] op'[1] = "pop" -> Abs!PopSome(1, IF N = 0 THEN 0 ELSE arr[N])
      [] op'[1] = "rem" -> Abs!RemoveByLoc(1, op'[2], op'[2])
Refines == [][StepRefines]_vars

View == arr
Emit == PrintT(ToJson(<<"EDGE", ToString(arr), op', ToString(arr')>>))
=============================================================================
