------------------------------ MODULE ListPtr ------------------------------
(***************************************************************************)
(* The algorithm of src/list.c on one list: a doubly linked chain of       *)
(* elements with first and last pointers and a counter.  Every pointer     *)
(* assignment of the C code is here.  0 is the null pointer.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxElems, Vals
Elem == 1 .. MaxElems

VARIABLES first, last, size, next, prev, val, alive, op
heap == <<next, prev, val, alive>>
vars == <<first, last, size, next, prev, val, alive, op>>

Free == {e \in Elem : ~alive[e]}
New == CHOOSE e \in Free : \A f \in Free : e <= f

Init == /\ first = 0 /\ last = 0 /\ size = 0
        /\ next = [e \in Elem |-> 0] /\ prev = [e \in Elem |-> 0]
        /\ val = [e \in Elem |-> 0] /\ alive = [e \in Elem |-> FALSE]
        /\ op = <<"init">>

AppendV(v) ==
    /\ Free # {}
    /\ LET e == New IN
       /\ alive' = [alive EXCEPT ![e] = TRUE]
       /\ val' = [val EXCEPT ![e] = v]
       /\ IF first = 0
          THEN /\ next' = [next EXCEPT ![e] = 0]
               /\ prev' = [prev EXCEPT ![e] = 0]
               /\ first' = e
          ELSE /\ next' = [next EXCEPT ![e] = 0, ![last] = e]
               /\ prev' = [prev EXCEPT ![e] = last]
               /\ UNCHANGED first
       /\ last' = e
    /\ size' = size + 1
    /\ op' = <<"app", v>>

PrependV(v) ==
    /\ Free # {}
    /\ LET e == New IN
       /\ alive' = [alive EXCEPT ![e] = TRUE]
       /\ val' = [val EXCEPT ![e] = v]
       /\ IF first = 0
          THEN /\ next' = [next EXCEPT ![e] = 0]
               /\ prev' = [prev EXCEPT ![e] = 0]
               /\ last' = e
          ELSE /\ next' = [next EXCEPT ![e] = first]
               /\ prev' = [prev EXCEPT ![e] = 0, ![first] = e]
               /\ UNCHANGED last
       /\ first' = e
    /\ size' = size + 1
    /\ op' = <<"pre", v>>

RECURSIVE Fwd(_, _), Bwd(_, _)
Fwd(e, n) == IF e = 0 \/ n = 0 THEN <<>> ELSE <<e>> \o Fwd(next[e], n - 1)
Bwd(e, n) == IF e = 0 \/ n = 0 THEN <<>> ELSE <<e>> \o Bwd(prev[e], n - 1)
Chain == Fwd(first, MaxElems + 1)
Pos(e) == CHOOSE i \in 1 .. Len(Chain) : Chain[i] = e

InsertV(v, b) ==
    /\ Free # {} /\ alive[b]
    /\ LET e == New IN
       /\ alive' = [alive EXCEPT ![e] = TRUE]
       /\ val' = [val EXCEPT ![e] = v]
       /\ prev' = [prev EXCEPT ![e] = prev[b], ![b] = e]
       /\ IF prev[b] # 0
          THEN /\ next' = [next EXCEPT ![e] = b, ![prev[b]] = e]
               /\ UNCHANGED first
          ELSE /\ next' = [next EXCEPT ![e] = b]
               /\ first' = e
    /\ size' = size + 1
    /\ UNCHANGED last
    /\ op' = <<"ins", v, Pos(b)>>

Unlink(e) ==
    /\ IF first = e
       THEN IF last = e
            THEN first' = 0 /\ last' = 0 /\ UNCHANGED <<next, prev>>
            ELSE /\ first' = next[e]
                 /\ prev' = [prev EXCEPT ![next[e]] = 0]
                 /\ UNCHANGED <<next, last>>
       ELSE IF last = e
       THEN /\ last' = prev[e]
            /\ next' = [next EXCEPT ![prev[e]] = 0]
            /\ UNCHANGED <<prev, first>>
       ELSE /\ prev' = [prev EXCEPT ![next[e]] = prev[e]]
            /\ next' = [next EXCEPT ![prev[e]] = next[e]]
            /\ UNCHANGED <<first, last>>
    /\ alive' = [alive EXCEPT ![e] = FALSE]
    /\ size' = size - 1
    /\ UNCHANGED val

Remove(e) == alive[e] /\ op' = <<"rem", Pos(e)>> /\ Unlink(e)
PopFirst == /\ op' = <<"popf">>
            /\ IF first = 0 THEN UNCHANGED <<first, last, size, heap>>
               ELSE Unlink(first)
PopLast == /\ op' = <<"popl">>
           /\ IF last = 0 THEN UNCHANGED <<first, last, size, heap>>
              ELSE Unlink(last)

Next == \/ \E v \in Vals : AppendV(v) \/ PrependV(v)
        \/ \E v \in Vals, b \in Elem : InsertV(v, b)
        \/ \E e \in Elem : Remove(e)
        \/ PopFirst \/ PopLast
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ---------------------------- *)

Seq1 == [i \in 1 .. Len(Chain) |-> <<Chain[i], val[Chain[i]]>>]

WellFormed ==
    /\ Len(Chain) = size
    /\ {Chain[i] : i \in 1 .. Len(Chain)} = {e \in Elem : alive[e]}
    /\ Bwd(last, MaxElems + 1) = [i \in 1 .. size |-> Chain[size + 1 - i]]

Abs == INSTANCE ListSeq WITH lists <- <<Seq1>>
AbsNext == \/ \E v \in Vals, h \in Elem :
                  Abs!LAppend(1, v, h) \/ Abs!LPrepend(1, v, h)
           \/ \E v \in Vals, h, b \in Elem : Abs!LInsert(1, v, b, h)
           \/ \E h \in Elem : Abs!LRemove(1, h)
           \/ \E r \in Vals \cup {0} : Abs!LPopFirst(1, r) \/ Abs!LPopLast(1, r)
Refines == [][AbsNext]_<<Seq1>>

View == Seq1
Emit == PrintT(ToJson(<<"EDGE", ToString(Seq1), op', ToString(Seq1')>>))
=============================================================================
