----------------------------- MODULE HashTable -----------------------------
(***************************************************************************)
(* The algorithm of src/hashtable.c on one table: an array of buckets that *)
(* are lists of elements, an element knowing its bucket.  Buckets are      *)
(* created on first use (NoBucket until then).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Keys, Vals, Buckets
Hash(k) == k % Buckets
Index == 0 .. Buckets - 1
NoBucket == << <<-1, -1>> >>

VARIABLES bucket, size, op
vars == <<bucket, size, op>>

Exists(i) == bucket[i] # NoBucket
Elems(i) == IF Exists(i) THEN bucket[i] ELSE <<>>
Where(i, k) == {j \in 1 .. Len(Elems(i)) : Elems(i)[j][1] = k}
Out(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

Init == bucket = [i \in Index |-> NoBucket] /\ size = 0 /\ op = <<"init">>

Put(k, v) ==
    LET i == Hash(k) IN
    /\ op' = <<"put", k, v>>
    /\ IF ~Exists(i)
       THEN bucket' = [bucket EXCEPT ![i] = <<<<k, v>>>>] /\ size' = size + 1
       ELSE IF Where(i, k) # {}
       THEN LET j == CHOOSE j \in Where(i, k) : TRUE IN
            IF bucket[i][j][2] = v THEN UNCHANGED <<bucket, size>>
            ELSE /\ bucket' = [bucket EXCEPT ![i] = Append(Out(@, j), <<k, v>>)]
                 /\ UNCHANGED size
       ELSE /\ bucket' = [bucket EXCEPT ![i] = Append(@, <<k, v>>)]
            /\ size' = size + 1

Pop(k) ==
    LET i == Hash(k) IN
    /\ op' = <<"pop", k>>
    /\ IF Where(i, k) = {} THEN UNCHANGED <<bucket, size>>
       ELSE /\ bucket' = [bucket EXCEPT ![i] = Out(@, CHOOSE j \in Where(i, k) : TRUE)]
            /\ size' = size - 1

\* get_next: the first element of the first nonempty bucket from i on
RECURSIVE GetNext(_)
GetNext(i) == IF i >= Buckets THEN <<>>
              ELSE IF Elems(i) # <<>> THEN <<i, 1>> ELSE GetNext(i + 1)
Other(c) == IF c[2] < Len(Elems(c[1])) THEN <<c[1], c[2] + 1>>
            ELSE GetNext(c[1] + 1)
RECURSIVE Walk(_, _)
Walk(c, n) == IF c = <<>> \/ n = 0 THEN <<>>
              ELSE <<Elems(c[1])[c[2]]>> \o Walk(Other(c), n - 1)
Traversal == Walk(GetNext(0), Cardinality(Keys) + 2)

PopAny ==
    /\ op' = <<"popany">>
    /\ LET c == GetNext(0) IN
       IF c = <<>> THEN UNCHANGED <<bucket, size>>
       ELSE /\ bucket' = [bucket EXCEPT ![c[1]] = Tail(@)]
            /\ size' = size - 1

Next == \/ \E k \in Keys, v \in Vals : Put(k, v)
        \/ \E k \in Keys : Pop(k)
        \/ PopAny
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ---------------------------- *)
Contents == UNION {{Elems(i)[j] : j \in 1 .. Len(Elems(i))} : i \in Index}
Triples == {<<e[1], e[1], e[2]>> : e \in Contents}

InPlace == \A i \in Index : \A j \in 1 .. Len(Elems(i)) : Hash(Elems(i)[j][1]) = i
SizeRight == size = Cardinality(Contents)
OneEach == \A d, e \in Contents : d[1] = e[1] => d = e
\* the traversal visits every element exactly once
TraversalComplete == /\ Len(Traversal) = size
                     /\ {Traversal[i] : i \in 1 .. Len(Traversal)} = Contents

Abs == INSTANCE HashMap WITH table <- <<Triples>>, detached <- <<>>
StepRefines ==
    LET m == Triples  m2 == Triples' IN
    CASE op'[1] = "put" ->
             m2 = {a \in m : a[1] # op'[2]} \cup {<<op'[2], op'[2], op'[3]>>}
      [] op'[1] = "pop" -> m2 = m \ Abs!Find(m, op'[2])
      [] op'[1] = "popany" -> \/ m = {} /\ m2 = {}
                              \/ \E a \in m : m2 = m \ {a}
Refines == [][StepRefines]_vars

View == bucket
Emit == PrintT(ToJson(<<"EDGE", ToString(bucket), op', ToString(bucket')>>))
=============================================================================
