----------------------------- MODULE TraceList -----------------------------
(* Is the log of a list run a behaviour of ListSeq?                        *)
EXTENDS TraceBase, ListSeq
vars == <<l, lists>>

Init == CaseInit /\ lists = [t \in 0 .. 7 |-> NoList]

TNew == Is("lnew") /\ LNew(Ev.t)
TApp == Is("lapp") /\ LAppend(Ev.t, Ev.v, Ev.h)
TPre == Is("lpre") /\ LPrepend(Ev.t, Ev.v, Ev.h)
TIns == Is("lins") /\ LInsert(Ev.t, Ev.v, Ev.b, Ev.h)
TRem == Is("lrem") /\ LRemove(Ev.t, Ev.h)
TPopF == Is("lpopf") /\ LPopFirst(Ev.t, Ev.r)
TPopL == Is("lpopl") /\ LPopLast(Ev.t, Ev.r)
TCopy == Is("lcopy") /\ LCopy(Ev.t, Ev.u, Ev.c)
TDel == Is("ldel") /\ LDestroy(Ev.t)
TObs ==
    /\ Is("lobs")
    /\ LSees(Ev.t, Ev.n, Ev.e, Ev.first, Ev.last, Ev.f, Ev.b)
    /\ \A i \in 1 .. Len(Ev.x) :
           Ev.x[i][2] = HandleAt(lists[Ev.t], Ev.x[i][1] + 1)
    /\ \A i \in 1 .. Len(Ev.s) : Ev.s[i] = FirstWith(lists[Ev.t], i - 1)
    /\ Ev.each = ValuesOf(lists[Ev.t])
    /\ ~Ev.bad
    /\ UNCHANGED lists
\* walked along with another list, and by one foreach inside another
TWalk == /\ Is("lwalk") /\ LiveList(Ev.t)
         /\ Ev.f = lists[Ev.t] /\ Ev.each = ValuesOf(lists[Ev.t]) /\ ~Ev.bad
         /\ UNCHANGED lists

Next == \/ TNew \/ TApp \/ TPre \/ TIns \/ TRem \/ TPopF \/ TPopL \/ TCopy
        \/ TDel \/ TObs \/ TWalk \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
