------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Threads with nothing in common.  Each thread works on a container (or   *)
(* buffer, string, encoder) of its own, abstracted to one bit, and an      *)
(* operation exchanges it in a few steps: fetch it, work a while, store    *)
(* the result.  The steps of the threads come in any order; a thread that  *)
(* is done with the operations of a case waits for the others.             *)
(*                                                                         *)
(* The promise is that each thread gets the results it would get if it     *)
(* were alone (Alone).  An implementation keeps what it works with in the  *)
(* activation (Shared = FALSE).  If it keeps it in one place for all       *)
(* (Shared = TRUE, ThreadsShared.cfg), TLC finds a counterexample.  The    *)
(* interleavings printed here are the ones the real library is run with: a *)
(* step stands for some basic blocks of it.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Workers, Steps, Ops, Shared
VARIABLES bit,          \* what each thread works on
          pc,           \* steps done of the operation under way; 0: none
          work,         \* what it is working with
          cell,         \* the place for all
          done,         \* operations
          wrong         \* a thread got another result than alone
tvars == <<bit, pc, work, cell, done, wrong>>

Init == /\ bit = [t \in Workers |-> 0] /\ pc = bit /\ work = bit /\ done = bit
        /\ cell = 0 /\ wrong = FALSE
\* alone, a thread finds what its operations so far have left
Expected(t) == done[t] % 2
Begin(t) == /\ pc[t] = 0 /\ done[t] < Ops
            /\ pc' = [pc EXCEPT ![t] = 1]
            /\ work' = [work EXCEPT ![t] = bit[t]]
            /\ cell' = bit[t]
            /\ UNCHANGED <<bit, done, wrong>>
Go(t) == /\ pc[t] > 0 /\ pc[t] < Steps
         /\ pc' = [pc EXCEPT ![t] = @ + 1]
         /\ UNCHANGED <<bit, work, cell, done, wrong>>
End(t) == /\ pc[t] = Steps
          /\ LET w == IF Shared THEN cell ELSE work[t]
             IN  /\ bit' = [bit EXCEPT ![t] = 1 - w]
                 /\ wrong' = (wrong \/ w # Expected(t))
          /\ pc' = [pc EXCEPT ![t] = 0]
          /\ done' = [done EXCEPT ![t] = @ + 1]
          /\ UNCHANGED <<work, cell>>
Barrier == /\ \A t \in Workers : pc[t] = 0 /\ done[t] = Ops
           /\ done' = [t \in Workers |-> 0] /\ bit' = done'
           /\ UNCHANGED <<pc, work, cell, wrong>>
Next == (\E t \in Workers : Begin(t) \/ Go(t) \/ End(t)) \/ Barrier
Spec == Init /\ [][Next]_tvars

Alone == ~wrong
Undisturbed == \A t \in Workers : bit[t] = Expected(t)

\* the interleavings: where each thread is, and which one moves
Place == <<pc, done>>
Moves == {t \in Workers : pc'[t] # pc[t]}
Emit == \A t \in Moves : PrintT(ToJson(<<"EDGE", ToString(Place),
                                         <<"run", t>>, ToString(Place')>>))
=============================================================================
