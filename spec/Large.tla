------------------------------- MODULE Large -------------------------------
(***************************************************************************)
(* The containers once more, with operations in bulk, so that very large   *)
(* ones can be followed: members are numbers, and what is stored with a    *)
(* number follows from it.  Sets are kept as characteristic sequences      *)
(* (has[x + 1] = 1), as TLC is slow on large sets.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES has,      \* set of numbers: a tree, a hash table or an integer set
          seq,      \* sequence of numbers: a list
          prio,     \* priorities of the items of the queue so far
          queued,   \* which of them are in the queue
          len, max, \* size and limit of the byte array
          owners    \* of the byte array
vars0 == <<has, seq, prio, queued, len, max, owners>>

\* b as a value: TLC takes conjuncts of actions one inside the other, too deep here
Holds(b) == b = TRUE
Least(n, m) == IF n < m THEN n ELSE m
Most(a, b) == IF a > b THEN a ELSE b
\* x is one of a, a + s, ..., n of them
Within(x, a, n, s) == LET d == IF s > 0 THEN x - a ELSE a - x
                          m == IF s > 0 THEN s ELSE -s
                      IN  d >= 0 /\ d % m = 0 /\ d \div m < n
Nothing(n) == [i \in 1 .. n |-> 0]
Size(c) == Cardinality({i \in DOMAIN c : c[i] = 1})
Member(c, x) == x >= 0 /\ x < Len(c) /\ c[x + 1] = 1
Plus(c, a, n, s) == [i \in DOMAIN c |-> IF Within(i - 1, a, n, s) THEN 1 ELSE c[i]]
Minus(c, a, n, s) == [i \in DOMAIN c |-> IF Within(i - 1, a, n, s) THEN 0 ELSE c[i]]
(* q has only members, and none twice, as the witness at shows: it has for  *)
(* each number where it stands in q.                                       *)
MembersOnce(c, q, at) ==
    Holds(\A i \in DOMAIN q : Member(c, q[i]) /\ at[q[i] + 1] = i)
\* the witness has nothing but what it should
Witness(q, at) == Holds(\A i \in DOMAIN at :
                            at[i] # 0 => (at[i] \in DOMAIN q /\ q[at[i]] = i - 1))
Increasing(r) == Holds(\A i \in 1 .. Len(r) - 1 : r[i] < r[i + 1])
\* r is what n calls gave, -1 for nothing, which can only come at the end
Given(r) == SubSeq(r, 1, Cardinality({i \in DOMAIN r : r[i] # -1}))
InFront(q, r) == Holds(\A i \in DOMAIN r : (r[i] = -1) = (i > Len(q)))

(* maps and sets *)
MLoad(a, n, s, count, wrong) == has' = Plus(has, a, n, s) /\ count = 0 /\ wrong = 0
MDrop(a, n, s, count, wrong) == /\ has' = Minus(has, a, n, s)
                                /\ count = Size(has) - Size(has') /\ wrong = 0
\* in order, and none left behind that is less
Lowest(q) ==
    /\ Increasing(q)
    /\ q = <<>> \/ LET top == q[Len(q)] IN
                    Holds(\A i \in DOMAIN has : has'[i] = 1 => i - 1 > top)
MAny(n, r, at, first) ==
    LET q == Given(r) IN
    /\ Len(r) = n /\ Len(q) = Least(n, Size(has))
    /\ InFront(q, r) /\ MembersOnce(has, q, at)
    /\ has' = [i \in DOMAIN has |-> IF at[i] # 0 THEN 0 ELSE has[i]]
    /\ Witness(q, at)
    /\ ~first \/ Lowest(q)
MSees(n, e, w, at, sorted, g) ==
    /\ n = Size(has) /\ e = (n = 0)
    /\ Len(w) = n /\ MembersOnce(has, w, at)
    /\ sorted => Increasing(w)
    /\ Holds(\A i \in DOMAIN g :
                 g[i][2] = IF Member(has, g[i][1]) THEN g[i][1] ELSE -1)

\* the first from x on that is a member (is not)
RECURSIVE Find(_, _, _)
Find(x, last, in) == IF x > last THEN -1
                     ELSE IF (has[x + 1] = 1) = in THEN x ELSE Find(x + 1, last, in)
NextIn(x, in) ==
    LET last == Len(has) - 1
        near == Find(x, Least(x + 200, last), in)
        far == {y \in x .. last : (has[y + 1] = 1) = in}
    IN  IF near # -1 THEN near
        ELSE IF far = {} THEN -1 ELSE CHOOSE y \in far : \A z \in far : y <= z
ISees(e, xs) == /\ e = (Size(has) = 0)
                /\ Holds(\A i \in DOMAIN xs :
                             /\ xs[i][2] = IF Member(has, xs[i][1]) THEN 1 ELSE 0
                             /\ xs[i][3] = NextIn(xs[i][1], TRUE)
                             /\ xs[i][4] = NextIn(xs[i][1], FALSE))

(* sequences *)
LApp(a, n) == seq' = seq \o [i \in 1 .. n |-> (a + i) - 1]
LPre(a, n) == seq' = [i \in 1 .. n |-> (a + n) - i] \o seq
PadTo(s, n) == [i \in 1 .. n |-> IF i <= Len(s) THEN s[i] ELSE -1]
Back(s) == [i \in 1 .. Len(s) |-> s[(Len(s) + 1) - i]]
LPopF(n, r) == r = PadTo(seq, n) /\ seq' = SubSeq(seq, n + 1, Len(seq))
LPopL(n, r) == r = PadTo(Back(seq), n) /\ seq' = SubSeq(seq, 1, Len(seq) - n)
LSees(n, e, f, b, each, xs) ==
    /\ n = Len(seq) /\ e = (n = 0) /\ f = seq /\ b = Back(seq) /\ each = seq
    /\ Holds(\A i \in DOMAIN xs :
                 xs[i][2] = IF xs[i][1] >= 0 /\ xs[i][1] < Len(seq)
                            THEN seq[xs[i][1] + 1] ELSE -1)

(* priorities: items are numbered from 0 *)
QLoad(a, p) == /\ a = Len(prio) /\ prio' = prio \o p
               /\ queued' = queued \o [i \in 1 .. Len(p) |-> 1]
\* served in order, and none left behind that should have been served before
Served(q) ==
    /\ Holds(\A i \in 1 .. Len(q) - 1 : prio[q[i] + 1] <= prio[q[i + 1] + 1])
    /\ q = <<>> \/ LET top == prio[q[Len(q)] + 1] IN
                    Holds(\A i \in DOMAIN queued : queued'[i] = 1 => prio[i] >= top)
QTake(n, r, at, agree) ==
    LET q == Given(r) IN
    /\ agree
    /\ Len(r) = n /\ Len(q) = Least(n, Size(queued))
    /\ InFront(q, r) /\ MembersOnce(queued, q, at)
    /\ queued' = [i \in DOMAIN queued |-> IF at[i] # 0 THEN 0 ELSE queued[i]]
    /\ Witness(q, at)
    /\ Served(q)
QRem(a, n, s, r) == /\ r = [i \in 1 .. n |-> a + ((i - 1) * s)]
                    /\ queued' = Minus(queued, a, n, s)
                    /\ Size(queued') = Size(queued) - n
QSees(n, e) == n = Size(queued) /\ e = (n = 0)

(* bytes: the one at place i is i % 251 *)
Fits(n) == n <= max - 1
BApp(pos, n, r) == /\ pos = len
                   /\ r = Fits(len + n) /\ len' = IF r THEN len + n ELSE len
BCop(pos, n, r) == /\ r = (pos <= len /\ Fits(pos + n))
                   /\ len' = IF r THEN Most(len, pos + n) ELSE len
BStr(n, r) == LET room == (max - 1) - len IN
              IF n > 0 /\ room = 0 THEN r = -1 /\ len' = len
              ELSE r = Least(n, room) /\ len' = len + r
BCut(n, r) == n <= len /\ r /\ len' = n
BShare(n, same) == same /\ owners' = owners + n
\* left: blocks of memory that were not there before the array was made
BDel(n, gone, left) == /\ n <= owners /\ gone = (n = owners) /\ owners' = owners - n
                       /\ gone => left = 0
BSees(n, nul, xs) == /\ owners > 0 /\ n = len /\ nul = 0
                     /\ Holds(\A i \in DOMAIN xs :
                                  xs[i][1] < len /\ xs[i][2] = xs[i][1] % 251)
=============================================================================
