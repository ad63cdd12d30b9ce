------------------------------- MODULE IntSet -------------------------------
(* What a user of fsdyn's integer sets sees: a subset of 0..cap-1.         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES icap,   \* [slot -> capacity, -1 if there is none]
          iset    \* [slot -> members]
ivars == <<icap, iset>>

ILive(t) == icap[t] >= 0
Universe(t) == 0 .. icap[t] - 1

INew(t, cap) == /\ ~ILive(t) /\ cap >= 0
                /\ icap' = [icap EXCEPT ![t] = cap]
                /\ iset' = [iset EXCEPT ![t] = {}]
IAdd(t, x) == /\ ILive(t) /\ UNCHANGED icap
              /\ iset' = [iset EXCEPT ![t] = IF x < icap[t] THEN @ \cup {x} ELSE @]
IRemove(t, x) == /\ ILive(t) /\ UNCHANGED icap
                 /\ iset' = [iset EXCEPT ![t] = @ \ {x}]
IFill(t) == /\ ILive(t) /\ UNCHANGED icap
            /\ iset' = [iset EXCEPT ![t] = Universe(t)]
IDestroy(t) == /\ ILive(t) /\ icap' = [icap EXCEPT ![t] = -1]
               /\ iset' = [iset EXCEPT ![t] = {}]

Least(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
NextHit(t, x) == Least({y \in iset[t] : y >= x})
NextMiss(t, x) == Least({y \in Universe(t) : y >= x /\ y \notin iset[t]})

InBounds == \A t \in DOMAIN icap : iset[t] \subseteq Universe(t)
=============================================================================
