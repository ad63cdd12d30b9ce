---------------------------- MODULE TraceOwners ----------------------------
(* Is the log of a C++ wrapper run a behaviour of Owners?  Every event has *)
(* the set of objects whose memory is still held after it.                 *)
EXTENDS TraceBase, Owners
vars == <<l, owner, bare, made>>
Init == CaseInit /\ owner = [w \in 0 .. 3 |-> 0] /\ bare = <<>> /\ made = 0

Held == {Ev.held[i] : i \in 1 .. Len(Ev.held)}
HeldRight == Held = LiveObjects'
TMake == Is("omake") /\ Ev.o = made + 1 /\ OMake(Ev.w) /\ HeldRight
TReset == Is("oreset") /\ OReset(Ev.w) /\ HeldRight
TMove == Is("omove") /\ OMove(Ev.w, Ev.v) /\ HeldRight
TSwap == Is("oswap") /\ OSwap(Ev.w, Ev.v) /\ HeldRight
TRelease == Is("orelease") /\ Ev.o = owner[Ev.w] /\ ORelease(Ev.w) /\ HeldRight
TFree == Is("ofree") /\ OFree(Ev.o) /\ HeldRight
TShare == Is("oshare") /\ OShare(Ev.w, Ev.v) /\ HeldRight
Next == \/ TMake \/ TReset \/ TMove \/ TSwap \/ TRelease \/ TFree \/ TShare
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
