---------------------------- MODULE ByteArrayBuf ----------------------------
(***************************************************************************)
(* The algorithm of src/bytearray.c: a buffer that starts at InitSize and  *)
(* grows to powers of two, a cursor and a terminating NUL kept inside the  *)
(* buffer.  Garbage (9) is what fresh memory holds.  TLC checks that the   *)
(* NUL is always there, that no write falls outside the buffer, and that   *)
(* each step is one of ByteArray.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS InitSize, MaxSizes, MaxLen

VARIABLES max, buf, cursor, op
vars == <<max, buf, cursor, op>>
Content == SubSeq(buf, 1, cursor)
Fresh(n) == [i \in 1 .. n |-> 9]

Init == /\ max \in MaxSizes
        /\ LET n == IF InitSize > max THEN max ELSE InitSize
           IN  buf = [Fresh(n) EXCEPT ![1] = 0]
        /\ cursor = 0
        /\ op = <<"init", 0, 0, TRUE>>

RECURSIVE Pow2(_, _)
Pow2(n, need) == IF n >= need THEN n ELSE Pow2(2 * n, need)
\* ensure_space: <<ok, buffer>>
Ensure(len) ==
    IF len >= max - cursor THEN <<FALSE, buf>>
    ELSE IF len >= Len(buf) - cursor
    THEN LET n == Pow2(1, cursor + len + 1)
         IN  <<TRUE, [i \in 1 .. n |-> IF i <= Len(buf) THEN buf[i] ELSE 9]>>
    ELSE <<TRUE, buf>>
\* memcpy of d at pos, then a NUL at end; writes outside the buffer show up as
\* a buffer that is too short
Write(b, pos, d) == [i \in 1 .. Len(b) |->
                        IF i > pos /\ i <= pos + Len(d) THEN d[i - pos] ELSE b[i]]
Term(b, at) == [i \in 1 .. Len(b) |-> IF i = at + 1 THEN 0 ELSE b[i]]

Data(n) == [i \in 1 .. n |-> 1 + ((cursor + i) % 2)]

AppendN(n) ==
    LET e == Ensure(n) IN
    /\ op' = <<"app", n, 0, e[1]>>
    /\ UNCHANGED max
    /\ IF e[1] THEN /\ cursor' = cursor + n
                    /\ buf' = Term(Write(e[2], cursor, Data(n)), cursor + n)
       ELSE UNCHANGED <<buf, cursor>>
CopyN(pos, n) ==
    LET grow == n > cursor - pos
        e == IF grow THEN Ensure(pos + n - cursor) ELSE <<TRUE, buf>>
        ok == pos <= cursor /\ e[1]
    IN
    /\ op' = <<"cop", n, pos, ok>>
    /\ UNCHANGED max
    /\ IF ok THEN /\ cursor' = IF grow THEN pos + n ELSE cursor
                  /\ buf' = LET w == Write(e[2], pos, Data(n))
                            IN  IF grow THEN Term(w, pos + n) ELSE w
       ELSE UNCHANGED <<buf, cursor>>
ResizeN(n) ==
    LET grow == n > cursor
        e == IF grow THEN Ensure(n - cursor) ELSE <<TRUE, buf>>
    IN
    /\ op' = <<"rsz", n, 0, e[1]>>
    /\ UNCHANGED max
    /\ IF e[1] THEN /\ cursor' = n
                    /\ buf' = Term(IF grow THEN Write(e[2], cursor,
                                        [i \in 1 .. n - cursor |-> 3])
                                   ELSE buf, n)
       ELSE UNCHANGED <<buf, cursor>>
Clear == /\ op' = <<"clr", 0, 0, TRUE>> /\ cursor' = 0 /\ buf' = Term(buf, 0)
         /\ UNCHANGED max
\* a reader that gives g (it may scribble over all it is offered), or fails
StreamN(n, g) ==
    LET avail == max - cursor
        len == IF n >= avail THEN avail - 1 ELSE n
        none == n >= avail /\ avail = 1
        e == Ensure(len)
    IN
    /\ g <= n
    /\ UNCHANGED max
    /\ IF none THEN op' = <<"str", n, g, FALSE>> /\ UNCHANGED <<buf, cursor>>
       ELSE LET k == IF g > len THEN len ELSE g
                w == Write(e[2], cursor, Fresh(len))
            IN  /\ op' = <<"str", n, g, TRUE>>
                /\ cursor' = IF k > 0 THEN cursor + k ELSE cursor
                /\ buf' = Term(Write(w, cursor, Data(IF k > 0 THEN k ELSE 0)),
                               cursor')
Lens == 0 .. MaxLen
Next == \/ Clear
        \/ \E n \in Lens : AppendN(n) \/ ResizeN(n)
        \/ \E n \in Lens, p \in 0 .. cursor + 1 : CopyN(p, n)
        \/ \E n \in Lens, g \in {-1, 0, 1, 2} : StreamN(n, g)
Spec == Init /\ [][Next]_vars

Terminated == cursor < Len(buf) /\ buf[cursor + 1] = 0
NoGarbage == \A i \in 1 .. cursor : buf[i] # 9

Abs == INSTANCE ByteArray WITH bmax <- <<max>>, bytes <- <<Content>>,
                               owners <- <<1>>
StepRefines ==
    LET n == op'[2]  a == op'[3]  ok == op'[4] IN
    CASE op'[1] = "app" -> Abs!BAppend(1, n, Data(n), ok, "ENOSPC")
      [] op'[1] = "cop" -> Abs!BCopy(1, a, n, Data(n), ok, "ENOSPC")
      [] op'[1] = "rsz" -> Abs!BResize(1, n, 3, ok, "ENOSPC")
      [] op'[1] = "clr" -> Abs!BClear(1)
      [] op'[1] = "str" ->
             IF ok THEN \E o \in 0 .. n : Abs!BStream(1, n, 1, o, a, Data(n),
                            Abs!Min(a, o), "EIO")
             ELSE Abs!BStream(1, n, 0, 0, a, Data(n), -1, "ENOSPC")
Refines == [][StepRefines]_vars

View == <<max, Len(buf), cursor, Content>>
Emit == PrintT(ToJson(<<"EDGE", ToString(<<max, Len(buf), cursor>>), op',
                        ToString(<<max', Len(buf'), cursor'>>)>>))
=============================================================================
