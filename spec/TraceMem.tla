------------------------------ MODULE TraceMem ------------------------------
(***************************************************************************)
(* All requests that reach the installed reallocator, with serial numbers  *)
(* for blocks (0 for none, -1 for a block it does not know); "quiet" when  *)
(* the caller has given everything back, with the number of times that     *)
(* the library has called the C library's allocator itself.                *)
(***************************************************************************)
EXTENDS TraceBase, Memory
vars == <<l, blocks>>
Init == CaseInit /\ blocks = {}
Next == \/ /\ Is("mem")
           /\ LET a == Ev.from
                  b == Ev.to
              IN  IF a = 0 THEN IF b = 0 THEN MNothing ELSE MAlloc(b)
                  ELSE IF Ev.release THEN MRelease(a)
                  ELSE MResize(a, b)
        \/ Is("quiet") /\ blocks = {} /\ Ev.bypass = 0 /\ UNCHANGED blocks
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
