------------------------------- MODULE Nested -------------------------------
(***************************************************************************)
(* Operations that call back.  An operation on a container begins, calls   *)
(* the user's comparison (hash, relocation, reading) function a few times  *)
(* and returns; such a function may begin an operation on another          *)
(* container, which may call back in turn.  A container is abstracted to   *)
(* one bit, an operation to exchanging it: enough to see that what was     *)
(* read at the beginning is what the operation works with at the end.      *)
(*                                                                         *)
(* The promise is that an operation is atomic as far as its container is   *)
(* concerned: the sequence of the results on one container is the one that *)
(* its operations alone would have had (Alone).  An implementation keeps   *)
(* what it works with in the activation (Shared = FALSE).  If it keeps it  *)
(* in one place for all (Shared = TRUE, NestedShared.cfg), TLC finds a     *)
(* counterexample: the schedules printed here tell the two apart.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Hosts,        \* containers whose operations call back
          Leaves,       \* others
          Depth,        \* of nesting
          Calls,        \* back, an operation makes at most
          Shared
Objects == Hosts \cup Leaves
VARIABLES bit,          \* the containers
          alone,        \* the containers as their own operations leave them
          stack,        \* activations: container, what it works with, calls left
          cell,         \* the place for all
          wrong         \* a result differed
nvars == <<bit, alone, stack, cell, wrong>>

Busy == {stack[i].o : i \in 1 .. Len(stack)}
Init == /\ bit = [o \in Objects |-> 0] /\ alone = bit /\ stack = <<>>
        /\ cell = 0 /\ wrong = FALSE
\* only a callback, or the user, begins an operation; not on what is being
\* operated on
MayBegin == IF stack = <<>> THEN TRUE
            ELSE stack[Len(stack)].in /\ Len(stack) < Depth
Begin(o) == /\ MayBegin /\ o \notin Busy
            /\ stack' = Append(stack, [o |-> o, w |-> bit[o],
                                       left |-> IF o \in Hosts THEN Calls ELSE 0,
                                       in |-> FALSE])
            /\ cell' = bit[o]
            /\ UNCHANGED <<bit, alone, wrong>>
Top == stack[Len(stack)]
\* the operation calls the user's function, which returns
Back == /\ stack # <<>> /\ ~Top.in /\ Top.left > 0
        /\ stack' = [stack EXCEPT ![Len(stack)].in = TRUE,
                                  ![Len(stack)].left = @ - 1]
        /\ UNCHANGED <<bit, alone, cell, wrong>>
Resume == /\ stack # <<>> /\ Top.in
          /\ stack' = [stack EXCEPT ![Len(stack)].in = FALSE]
          /\ UNCHANGED <<bit, alone, cell, wrong>>
Return == /\ stack # <<>> /\ ~Top.in
          /\ LET w == IF Shared THEN cell ELSE Top.w
             IN  /\ bit' = [bit EXCEPT ![Top.o] = 1 - w]
                 /\ wrong' = (wrong \/ w # alone[Top.o])
          /\ alone' = [alone EXCEPT ![Top.o] = 1 - @]
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED cell
Next == (\E o \in Objects : Begin(o)) \/ Back \/ Resume \/ Return
Spec == Init /\ [][Next]_nvars

Alone == ~wrong
Undisturbed == \A o \in Objects \ Busy : bit[o] = alone[o]

\* the schedules: who is active, and what comes next
Place == [i \in 1 .. Len(stack) |-> <<stack[i].o, stack[i].left, stack[i].in>>]
Op == IF Len(stack') > Len(stack) THEN <<"begin", stack'[Len(stack')].o>>
      ELSE IF Len(stack') < Len(stack) THEN <<"return">>
      ELSE IF Top.in THEN <<"resume">> ELSE <<"back">>
Emit == PrintT(ToJson(<<"EDGE", ToString(Place), Op, ToString(Place')>>))
=============================================================================
