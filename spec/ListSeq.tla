------------------------------ MODULE ListSeq ------------------------------
(***************************************************************************)
(* What a user of fsdyn's lists sees: sequences of members.  A member is   *)
(* <<h, v>>: h the handle (the list_elem_t the caller holds), v the value. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE lists   \* [slot -> sequence of members, or NoList]

NoList == << <<-1, -1>> >>

HandlesOf(s) == {s[i][1] : i \in 1 .. Len(s)}
ValuesOf(s)  == [i \in 1 .. Len(s) |-> s[i][2]]
PosOf(s, h)  == CHOOSE i \in 1 .. Len(s) : s[i][1] = h
InsertedAt(s, i, m) == SubSeq(s, 1, i - 1) \o <<m>> \o SubSeq(s, i, Len(s))
RemovedAt(s, i)     == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

AllHandles == UNION {HandlesOf(lists[t]) : t \in DOMAIN lists}
LiveList(t) == lists[t] # NoList
Fresh(h) == h > 0 /\ h \notin AllHandles

LNew(t) == ~LiveList(t) /\ lists' = [lists EXCEPT ![t] = <<>>]
LAppend(t, v, h) ==
    LiveList(t) /\ Fresh(h) /\ lists' = [lists EXCEPT ![t] = Append(@, <<h, v>>)]
LPrepend(t, v, h) ==
    LiveList(t) /\ Fresh(h) /\ lists' = [lists EXCEPT ![t] = <<<<h, v>>>> \o @]
\* b is the handle of a member of the list
LInsert(t, v, b, h) ==
    /\ LiveList(t) /\ Fresh(h) /\ b \in HandlesOf(lists[t])
    /\ lists' = [lists EXCEPT ![t] = InsertedAt(@, PosOf(@, b), <<h, v>>)]
LRemove(t, h) ==
    /\ LiveList(t) /\ h \in HandlesOf(lists[t])
    /\ lists' = [lists EXCEPT ![t] = RemovedAt(@, PosOf(@, h))]
\* r is the value returned, 0 (NULL) for none
LPopFirst(t, r) ==
    /\ LiveList(t)
    /\ r = IF lists[t] = <<>> THEN 0 ELSE Head(lists[t])[2]
    /\ lists' = [lists EXCEPT ![t] = IF @ = <<>> THEN @ ELSE Tail(@)]
LPopLast(t, r) ==
    LET n == Len(lists[t]) IN
    /\ LiveList(t)
    /\ r = IF n = 0 THEN 0 ELSE lists[t][n][2]
    /\ lists' = [lists EXCEPT ![t] = IF n = 0 THEN @ ELSE SubSeq(@, 1, n - 1)]
\* c: the members of the copy, with handles of their own
LCopy(t, u, c) ==
    /\ LiveList(t) /\ ~LiveList(u)
    /\ Len(c) = Len(lists[t])
    /\ \A i \in 1 .. Len(c) : c[i][2] = lists[t][i][2]
    /\ \A i \in 1 .. Len(c) : Fresh(c[i][1])
    /\ Cardinality(HandlesOf(c)) = Len(c)
    /\ lists' = [lists EXCEPT ![u] = c]
LDestroy(t) == LiveList(t) /\ lists' = [lists EXCEPT ![t] = NoList]

(* observations *)
HandleAt(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i][1] ELSE 0
FirstWith(s, v) ==
    LET w == {i \in 1 .. Len(s) : s[i][2] = v} IN
    IF w = {} THEN 0 ELSE s[CHOOSE i \in w : \A j \in w : i <= j][1]
LSees(t, n, empty, first, last, fwd, bwd) ==
    LET s == lists[t] IN
    /\ LiveList(t)
    /\ n = Len(s) /\ empty = (s = <<>>)
    /\ first = HandleAt(s, 1) /\ last = HandleAt(s, Len(s))
    /\ fwd = s
    /\ bwd = [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i][1]]

HandlesUnique == \A t \in DOMAIN lists : LiveList(t) =>
    Cardinality(HandlesOf(lists[t])) = Len(lists[t])
=============================================================================
