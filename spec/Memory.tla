------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* The blocks that a reallocator has handed out: each request names a      *)
(* block that is live, or none; a block is gone once resized (the answer   *)
(* is a new one) or released.                                              *)
(***************************************************************************)
EXTENDS Integers
VARIABLE blocks         \* those outstanding
MAlloc(b) == b \notin blocks /\ blocks' = blocks \cup {b}
MResize(a, b) == a \in blocks /\ b \notin blocks /\ blocks' = (blocks \ {a}) \cup {b}
MRelease(a) == a \in blocks /\ blocks' = blocks \ {a}
MNothing == UNCHANGED blocks    \* nothing released, or no memory to be had
=============================================================================
