----------------------------- MODULE ByteArray -----------------------------
(***************************************************************************)
(* What a user of fsdyn's byte arrays sees: a bounded byte sequence with a *)
(* number of owners.  bmax counts the terminating NUL, so the content is   *)
(* at most bmax - 1 bytes.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES bmax,    \* [slot -> maximum size, 0 if there is no array]
          bytes,   \* [slot -> content]
          owners   \* [slot -> number of owners]
bvars == <<bmax, bytes, owners>>

BLive(t) == owners[t] > 0
Room(t) == bmax[t] - 1 - Len(bytes[t])
Fits(t, n) == n <= bmax[t] - 1        \* may the content be n bytes long
Repeat(c, n) == [i \in 1 .. n |-> c]
Overwritten(s, pos, d) ==
    SubSeq(s, 1, pos) \o d \o SubSeq(s, pos + Len(d) + 1, Len(s))

Same == UNCHANGED bvars
Becomes(t, s) == bytes' = [bytes EXCEPT ![t] = s] /\ UNCHANGED <<bmax, owners>>

BNew(t, max) == /\ ~BLive(t) /\ max >= 1
                /\ bmax' = [bmax EXCEPT ![t] = max]
                /\ bytes' = [bytes EXCEPT ![t] = <<>>]
                /\ owners' = [owners EXCEPT ![t] = 1]

(* ok: did the call report success; err: errno after it.  len is the       *)
(* length asked for, of which d is as much as the caller really has.       *)
BAppend(t, len, d, ok, err) ==
    /\ BLive(t)
    /\ IF len <= Room(t) THEN ok /\ Becomes(t, bytes[t] \o d)
       ELSE ~ok /\ err = "ENOSPC" /\ Same
BCopy(t, pos, len, d, ok, err) ==
    /\ BLive(t)
    /\ IF pos > Len(bytes[t]) THEN ~ok /\ Same
       ELSE IF len <= bmax[t] - 1 - pos
       THEN ok /\ Becomes(t, Overwritten(bytes[t], pos, d))
       ELSE ~ok /\ err = "ENOSPC" /\ Same
\* copying a part of the content over another (no growth)
BSelfCopy(t, pos, off, len, ok) ==
    /\ BLive(t) /\ ok
    /\ Becomes(t, Overwritten(bytes[t], pos, SubSeq(bytes[t], off + 1, off + len)))
BClear(t) == BLive(t) /\ Becomes(t, <<>>)
BResize(t, n, c, ok, err) ==
    /\ BLive(t)
    /\ IF Fits(t, n)
       THEN ok /\ Becomes(t, IF n <= Len(bytes[t]) THEN SubSeq(bytes[t], 1, n)
                             ELSE bytes[t] \o Repeat(c, n - Len(bytes[t])))
       ELSE ~ok /\ err = "ENOSPC" /\ Same

(* Append from a reader that was called this many times, was offered this  *)
(* much room and answered give (clipped to what it was offered); d is what *)
(* it has to give, r the result of the call.                               *)
Min(a, b) == IF a < b THEN a ELSE b
BStream(t, len, calls, offered, give, d, r, err) ==
    /\ BLive(t)
    /\ IF len > 0 /\ Room(t) = 0
       THEN calls = 0 /\ r = -1 /\ err = "ENOSPC" /\ Same
       ELSE /\ calls = 1 /\ offered = Min(len, Room(t))
            /\ IF give > 0 /\ Min(give, offered) > 0
               THEN /\ r = Min(give, offered)
                    /\ Becomes(t, bytes[t] \o SubSeq(d, 1, r))
               ELSE r = Min(give, 0) /\ Same
            /\ give < 0 => err = "EIO"

BShare(t, same) == /\ BLive(t) /\ same
                   /\ owners' = [owners EXCEPT ![t] = @ + 1]
                   /\ UNCHANGED <<bmax, bytes>>
\* held: memory blocks that the array still occupies after the call
BDestroy(t, held) ==
    /\ BLive(t)
    /\ owners' = [owners EXCEPT ![t] = @ - 1]
    /\ IF owners[t] = 1
       THEN /\ held = 0
            /\ bytes' = [bytes EXCEPT ![t] = <<>>]
            /\ bmax' = [bmax EXCEPT ![t] = 0]
       ELSE held > 0 /\ UNCHANGED <<bytes, bmax>>

\* observation: size, the byte after the content, the content
BSees(t, n, nul, d) == /\ BLive(t) /\ n = Len(bytes[t]) /\ nul = 0
                       /\ d = bytes[t]

Bounded == \A t \in DOMAIN bmax : BLive(t) => Len(bytes[t]) < bmax[t]
=============================================================================
