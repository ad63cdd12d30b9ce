------------------------------ MODULE TraceAvl ------------------------------
(* Is the log of an AVL tree run a behaviour of AvlMap?                    *)
EXTENDS TraceBase, AvlMap

vars == <<l, tree, loose>>

Init == /\ CaseInit
        /\ tree = [t \in 0 .. 7 |-> NoTree]
        /\ loose = <<>>

\* what the call returned: <<>> or <<k, id, v, loose number>>
Res == IF Ev.r = <<>> THEN <<>> ELSE <<SubSeq(Ev.r, 1, 3)>>
LooseNumbered == Ev.r = <<>> \/ Ev.r[4] = Len(loose')

LiveLoose == {i \in 1 .. Len(loose) : loose[i] # Gone}

TNew == Is("anew") /\ NewTree(Ev.t)
TPut == Is("aput") /\ Put(Ev.t, Ev.k, Ev.id, Ev.v, Res) /\ LooseNumbered
TPop == Is("apop") /\ Pop(Ev.t, Ev.k, Res) /\ LooseNumbered
TRem == Is("arem") /\ Remove(Ev.t, Ev.k, Ev.had)
TPopF == Is("apopf") /\ PopFirst(Ev.t, Res) /\ LooseNumbered
TPopL == Is("apopl") /\ PopLast(Ev.t, Res) /\ LooseNumbered
TCopy == Is("acopy") /\ Copy(Ev.t, Ev.u)
TDel == Is("adel") /\ Destroy(Ev.t)
TDrop == Is("drop") /\ DropLoose(Ev.i)
TObs == /\ Is("aobs")
        /\ SeesTree(Ev.t, Ev.n, Ev.e, Ev.f)
        /\ Ev.two => SeesBackwards(Ev.t, Ev.b)
        /\ \A i \in 1 .. Len(Ev.q) : Answers(Ev.t, Ev.q[i])
        /\ ~Ev.bad
        /\ UNCHANGED avlvars
\* the loose associations still say what they said when they came loose
TLoose == /\ Is("loose")
          /\ {Ev.l[i] : i \in 1 .. Len(Ev.l)} =
                 {<<loose[i][1], loose[i][2], loose[i][3], i>> : i \in LiveLoose}
          /\ UNCHANGED avlvars

Next == \/ TNew \/ TPut \/ TPop \/ TRem \/ TPopF \/ TPopL \/ TCopy \/ TDel
        \/ TDrop \/ TObs \/ TLoose
        \/ CaseDone /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
=============================================================================
