----------------------------- MODULE TraceHash -----------------------------
(* Is the log of a hash table run a behaviour of HashMap?                  *)
EXTENDS TraceBase, HashMap
vars == <<l, table, detached>>

Init == CaseInit /\ table = [t \in 0 .. 7 |-> NoTable] /\ detached = <<>>

Res == IF Ev.r = <<>> THEN <<>> ELSE <<SubSeq(Ev.r, 1, 3)>>
Numbered == Ev.r = <<>> \/ Ev.r[4] = Len(detached')

TNew == Is("hnew") /\ HNew(Ev.t)
TPut == Is("hput") /\ HPut(Ev.t, Ev.k, Ev.id, Ev.v, Res) /\ Numbered
TPop == Is("hpop") /\ HPop(Ev.t, Ev.k, Res) /\ Numbered
TRem == Is("hrem") /\ HRemove(Ev.t, Ev.k, Ev.had)
TAny == Is("hany") /\ HPopAny(Ev.t, Res) /\ Numbered
TDel == Is("hdel") /\ HDestroy(Ev.t)
TDrop == Is("drop") /\ HDrop(Ev.i)
TObs == /\ Is("hobs")
        /\ HSees(Ev.t, Ev.n, Ev.e)
        /\ \A i \in 1 .. Len(Ev.g) : HGets(Ev.t, i - 1, Ev.g[i])
        /\ UNCHANGED <<table, detached>>
TWalk == /\ Is("hwalk") /\ HWalks(Ev.t, Ev.any, Ev.w)
         /\ Ev.n = Cardinality(table[Ev.t]) /\ Ev.e = (Ev.n = 0)
         /\ UNCHANGED <<table, detached>>
TLoose == /\ Is("loose")
          /\ {Ev.l[i] : i \in 1 .. Len(Ev.l)} =
                 {<<detached[i][1], detached[i][2], detached[i][3], i>> :
                      i \in {i \in 1 .. Len(detached) : detached[i] # GoneAssoc}}
          /\ UNCHANGED <<table, detached>>

Next == \/ TNew \/ TPut \/ TPop \/ TRem \/ TAny \/ TDel \/ TDrop \/ TObs
        \/ TWalk \/ TLoose \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
