------------------------------- MODULE Alloc -------------------------------
(***************************************************************************)
(* The allocation primitives.  State: which reallocator and which counter  *)
(* are installed.  Reallocators are scripted; each of their invocations is *)
(* seen as [who, ptr, size, res], pointers being small numbers, -1 for     *)
(* NULL.  Sizes are BigNat limbs.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNat

Null == -1
\* the scripted reallocators give up to 200000 bytes
Largest == <<3392, 6>>
\* exactly one invocation, whose result is passed on
One(cur, e, ptr, size) ==
    /\ Len(e.calls) = 1
    /\ e.calls[1].who = cur /\ e.calls[1].ptr = ptr
    /\ EqN(e.calls[1].size, size)
    /\ e.r = e.calls[1].res
AllocShows(cur, e) == One(cur, e, Null, e.n)
ReallocShows(cur, e) == One(cur, e, e.at, e.n)
FreeShows(cur, e) ==
    IF e.at = Null THEN e.calls = <<>>
    ELSE /\ Len(e.calls) = 1
         /\ e.calls[1].who = cur /\ e.calls[1].ptr = e.at
         /\ EqN(e.calls[1].size, <<0>>)
(* The block obtained is at least as long as the product, which may not    *)
(* even fit in 64 bits; all of it that was asked for is zero and nothing   *)
(* after the block has been touched (filled with 165 by the reallocator).  *)
(* e.d: the content of the block and 8 bytes after it, as <<byte, how many *)
(* in a row>>.                                                             *)
CallocShows(cur, e) ==
    LET want == MulN(e.n, e.m)
        k == Len(e.calls)
        small == want[1] + (At(want, 2) * Base)     \* if the rest is zero
    IN  /\ \A i \in 1 .. k : e.calls[i].who = cur
        /\ e.r # Null =>
             /\ k = 1 /\ e.calls[1].ptr = Null /\ e.r = e.calls[1].res
             /\ ~LtN(e.calls[1].size, want)
             /\ ~EqN(want, <<0>>) =>
                  /\ Len(e.d) >= 2
                  /\ e.d[1][1] = 0 /\ e.d[1][2] >= small
                  /\ e.d[Len(e.d)][1] = 165 /\ e.d[Len(e.d)][2] >= 8
        \* what the reallocator can give is passed on
        /\ (~LtN(Largest, want) /\ ~EqN(want, <<0>>)) =>
             k = 1 /\ e.r = e.calls[1].res /\ EqN(e.calls[1].size, want)
=============================================================================
