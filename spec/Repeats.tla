------------------------------ MODULE Repeats ------------------------------
(***************************************************************************)
(* Long strings, as sequences of pieces <<unit, times>>.  The functions    *)
(* specified here read their input from one end to the other and remember  *)
(* little, so that from some number of repetitions on, one more of them in *)
(* the input means one more in the output.  The result for a long string   *)
(* is thus known from that for a short one, in which no piece is repeated  *)
(* more than Few times (RepeatsMC checks this of the specifications).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SeqFold

Few == 5
AtMostFew(n) == IF n > Few THEN Few ELSE n
Times(u, n) == Concat([i \in 1 .. n |-> u])
Sum(f(_), n) == Total([i \in 1 .. n |-> f(i)])
\* the short string for a sequence of pieces
Short(ps) == Concat([i \in 1 .. Len(ps) |-> Times(ps[i][1], AtMostFew(ps[i][2]))])
\* the length of the first j pieces of it, and the number of repetitions
ShortLen(ps, j) == Sum(LAMBDA i : Len(ps[i][1]) * AtMostFew(ps[i][2]), j)
ShortTimes(ps, j) == Sum(LAMBDA i : AtMostFew(ps[i][2]), j)

(* A result is [ok, u, left]: if ok, it begins with the units u, each being*)
(* <<unit, how many times in a row, piece>>, where piece is the number of  *)
(* the piece of the input for which they stand (0: none, the unit stands   *)
(* once), and left more bytes follow.                                      *)
ResultShows(ps, o, x) ==
    /\ o.ok /\ o.left = 0
    /\ \A i \in 1 .. Len(o.u) :
         o.u[i][2] = (IF o.u[i][3] = 0 THEN 1 ELSE ps[o.u[i][3]][2])
    /\ x = Concat([i \in 1 .. Len(o.u) |-> Times(o.u[i][1], AtMostFew(o.u[i][2]))])
\* x: what the function yields for the short string
LongShows(e, x) ==
    /\ e.whole
    /\ ResultShows(e.in, e.out, x)
    /\ e.two => ResultShows(e.in, e.out2, x)
=============================================================================
