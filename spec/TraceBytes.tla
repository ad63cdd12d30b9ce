----------------------------- MODULE TraceBytes -----------------------------
(* Is the log of a byte array run a behaviour of ByteArray?                *)
EXTENDS TraceBase, ByteArray
vars == <<l, bmax, bytes, owners>>
Init == /\ CaseInit
        /\ bmax = [t \in 0 .. 7 |-> 0]
        /\ bytes = [t \in 0 .. 7 |-> <<>>]
        /\ owners = [t \in 0 .. 7 |-> 0]

TNew == Is("bnew") /\ BNew(Ev.t, Ev.max)
TApp == Is("bapp") /\ BAppend(Ev.t, Ev.len, Ev.d, Ev.r, Ev.err)
TCop == Is("bcop") /\ BCopy(Ev.t, Ev.pos, Ev.len, Ev.d, Ev.r, Ev.err)
TSelf == Is("bself") /\ BSelfCopy(Ev.t, Ev.pos, Ev.off, Ev.len, Ev.r)
TClr == Is("bclr") /\ BClear(Ev.t)
TRsz == Is("brsz") /\ BResize(Ev.t, Ev.len, Ev.c, Ev.r, Ev.err)
TStr == Is("bstr") /\ BStream(Ev.t, Ev.len, Ev.calls, Ev.offered, Ev.give,
                              Ev.d, Ev.r, Ev.err)
TShare == Is("bshare") /\ BShare(Ev.t, Ev.same)
TDel == Is("bdel") /\ BDestroy(Ev.t, Ev.held)
TObs == Is("bobs") /\ BSees(Ev.t, Ev.n, Ev.nul, Ev.d) /\ UNCHANGED bvars

Next == \/ TNew \/ TApp \/ TCop \/ TSelf \/ TClr \/ TRsz \/ TStr \/ TShare
        \/ TDel \/ TObs \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
