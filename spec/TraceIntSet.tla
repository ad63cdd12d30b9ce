---------------------------- MODULE TraceIntSet ----------------------------
(* Is the log of an integer set run a behaviour of IntSet?                 *)
EXTENDS TraceBase, IntSet
vars == <<l, icap, iset>>
Init == CaseInit /\ icap = [t \in 0 .. 7 |-> -1] /\ iset = [t \in 0 .. 7 |-> {}]

TNew == Is("inew") /\ INew(Ev.t, Ev.cap)
TAdd == Is("iadd") /\ IAdd(Ev.t, Ev.x)
TRem == Is("irem") /\ IRemove(Ev.t, Ev.x)
TFill == Is("ifill") /\ IFill(Ev.t)
TDel == Is("idel") /\ IDestroy(Ev.t)

(* The answers for consecutive probes determine one another: the last      *)
(* probe is looked up, the others follow.                                  *)
HitsRight(t, lo, h) ==
    LET n == Len(h) IN
    /\ h[n] = NextHit(t, lo + n - 1)
    /\ \A i \in 1 .. n - 1 :
           h[i] = IF (lo + i - 1) \in iset[t] THEN lo + i - 1 ELSE h[i + 1]
MissesRight(t, lo, m) ==
    LET n == Len(m) IN
    /\ m[n] = NextMiss(t, lo + n - 1)
    /\ \A i \in 1 .. n - 1 :
           m[i] = IF lo + i - 1 < icap[t] /\ (lo + i - 1) \notin iset[t]
                  THEN lo + i - 1 ELSE m[i + 1]

TObs == /\ Is("iobs")
        /\ ILive(Ev.t)
        /\ Ev.e = (iset[Ev.t] = {})
        /\ \A i \in 1 .. Len(Ev.has) :
               Ev.has[i] = IF (Ev.lo + i - 1) \in iset[Ev.t] THEN 1 ELSE 0
        /\ HitsRight(Ev.t, Ev.lo, Ev.hit)
        /\ MissesRight(Ev.t, Ev.lo, Ev.miss)
        \* probes far beyond any capacity used here
        /\ \A i \in 1 .. Len(Ev.far) : Ev.far[i] = <<0, -1, -1>>
        /\ UNCHANGED ivars

Next == \/ TNew \/ TAdd \/ TRem \/ TFill \/ TDel \/ TObs
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
