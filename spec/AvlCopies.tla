----------------------------- MODULE AvlCopies -----------------------------
(***************************************************************************)
(* Copies and loose associations in the abstract: two slots, few keys.     *)
(* TLC checks that no step on one tree changes another tree or a loose     *)
(* association, except dropping the latter.                                *)
(***************************************************************************)
EXTENDS AvlMap, FiniteSets, TLC

CONSTANTS Slots, Ks, Vs, MaxLoose
VARIABLE lastop
vars == <<tree, loose, lastop>>

Init == /\ tree = [s \in Slots |-> IF s = 1 THEN <<>> ELSE NoTree]
        /\ loose = <<>> /\ lastop = <<"init", 0>>

R == {<<>>} \cup {<<a>> : a \in Ks \X Ks \X Vs}
Next ==
    \E t \in Slots :
        \/ NewTree(t) /\ lastop' = <<"new", t>>
        \/ \E k \in Ks, v \in Vs, r \in R :
               Put(t, k, k, v, r) /\ lastop' = <<"put", t>>
        \/ \E k \in Ks, r \in R : Pop(t, k, r) /\ lastop' = <<"pop", t>>
        \/ \E k \in Ks, b \in BOOLEAN : Remove(t, k, b) /\ lastop' = <<"rem", t>>
        \/ \E r \in R : PopFirst(t, r) /\ lastop' = <<"popf", t>>
        \/ \E r \in R : PopLast(t, r) /\ lastop' = <<"popl", t>>
        \/ \E u \in Slots : Copy(t, u) /\ lastop' = <<"copy", u>>
        \/ Destroy(t) /\ lastop' = <<"del", t>>
        \/ \E i \in 1 .. Len(loose) : DropLoose(i) /\ lastop' = <<"drop", 0>>
Spec == Init /\ [][Next]_vars
Bound == Len(loose) <= MaxLoose
View == <<tree, loose>>

Independent == [][\A s \in Slots : s # lastop'[2] => tree'[s] = tree[s]]_vars
LooseIntact == [][/\ Len(loose') >= Len(loose)
                  /\ \A i \in 1 .. Len(loose) :
                         loose'[i] = loose[i] \/ lastop'[1] = "drop"]_vars
CopyEqual == [][lastop'[1] = "copy" =>
                   \E t \in Slots : Live(t) /\ tree'[lastop'[2]] = tree[t]]_vars
=============================================================================
