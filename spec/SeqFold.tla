------------------------------- MODULE SeqFold -------------------------------
(* Left folds over sequences; TLC evaluates them without recursion.        *)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
Fold(op(_, _), base, s) == FoldLeft(op, base, s)
Places(s) == [i \in 1 .. Len(s) |-> i]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Total(ns) == FoldLeft(LAMBDA a, b : a + b, 0, ns)
=============================================================================
