------------------------------ MODULE MemoryMC ------------------------------
(***************************************************************************)
(* Who holds which block.  The library's objects: containers (one block    *)
(* for the head, sometimes another that is replaced when it grows) with    *)
(* elements of one block each; elements can be detached, which hands them  *)
(* to the caller, and values returned (strings) are the caller's at once.  *)
(* A call can need scratch blocks, which it gives back whether it succeeds *)
(* or fails.  Everything live is somebody's, nothing is two people's, and  *)
(* so once the caller has given up all it holds nothing is live.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Memory
CONSTANTS Blocks, Containers
VARIABLES head, store, elems, callers, scratch, stage
vars == <<blocks, head, store, elems, callers, scratch, stage>>
Nobody == 0
Init == /\ blocks = {} /\ head = [c \in Containers |-> Nobody]
        /\ store = [c \in Containers |-> Nobody]
        /\ elems = [c \in Containers |-> {}] /\ callers = {} /\ scratch = {}
        /\ stage = "use"
Fresh(b) == b \in Blocks \ blocks
Create(c, b) == /\ stage = "use" /\ scratch = {} /\ head[c] = Nobody /\ Fresh(b) /\ MAlloc(b)
                /\ head' = [head EXCEPT ![c] = b]
                /\ UNCHANGED <<store, elems, callers, scratch, stage>>
Grow(c, b) == /\ stage = "use" /\ head[c] # Nobody /\ Fresh(b)
              /\ IF store[c] = Nobody THEN MAlloc(b) ELSE MResize(store[c], b)
              /\ store' = [store EXCEPT ![c] = b]
              /\ UNCHANGED <<head, elems, callers, scratch, stage>>
Insert(c, b) == /\ stage = "use" /\ head[c] # Nobody /\ Fresh(b) /\ MAlloc(b)
                /\ elems' = [elems EXCEPT ![c] = @ \cup {b}]
                /\ UNCHANGED <<head, store, callers, scratch, stage>>
Detach(c, b) == /\ stage = "use" /\ b \in elems[c] /\ MNothing
                /\ elems' = [elems EXCEPT ![c] = @ \ {b}]
                /\ callers' = callers \cup {b}
                /\ UNCHANGED <<head, store, scratch, stage>>
Borrow(b) == /\ stage = "use" /\ Fresh(b) /\ MAlloc(b) /\ Cardinality(scratch) < 2
             /\ scratch' = scratch \cup {b}
             /\ UNCHANGED <<head, store, elems, callers, stage>>
GiveBack(b) == /\ b \in scratch /\ MRelease(b) /\ scratch' = scratch \ {b}
               /\ UNCHANGED <<head, store, elems, callers, stage>>
\* the result of a call that succeeded
Return(b) == /\ b \in scratch /\ scratch' = scratch \ {b} /\ callers' = callers \cup {b}
             /\ MNothing /\ UNCHANGED <<head, store, elems, stage>>
Drop(b) == /\ b \in callers /\ MRelease(b) /\ callers' = callers \ {b}
           /\ UNCHANGED <<head, store, elems, scratch, stage>>
\* destroying goes through the elements, then the storage, then the head
Destroy(c) ==
    /\ scratch = {} /\ head[c] # Nobody
    /\ IF elems[c] # {}
       THEN \E b \in elems[c] : /\ MRelease(b) /\ elems' = [elems EXCEPT ![c] = @ \ {b}]
                                /\ UNCHANGED <<store, head>>
       ELSE IF store[c] # Nobody
       THEN MRelease(store[c]) /\ store' = [store EXCEPT ![c] = Nobody]
            /\ UNCHANGED <<head, elems>>
       ELSE MRelease(head[c]) /\ head' = [head EXCEPT ![c] = Nobody]
            /\ UNCHANGED <<store, elems>>
    /\ stage' = "end"
    /\ UNCHANGED <<callers, scratch>>
Next == \/ \E c \in Containers, b \in Blocks : Create(c, b) \/ Grow(c, b) \/ Insert(c, b)
                                               \/ Detach(c, b)
        \/ \E b \in Blocks : Borrow(b) \/ GiveBack(b) \/ Return(b) \/ Drop(b)
        \/ \E c \in Containers : Destroy(c)
Spec == Init /\ [][Next]_vars
Held == callers \cup scratch
        \cup UNION {elems[c] \cup ({head[c], store[c]} \ {Nobody}) : c \in Containers}
AllHeld == blocks = Held
Parts == <<callers, scratch>>
Apart == /\ callers \cap scratch = {}
         /\ \A c \in Containers : /\ elems[c] \cap (callers \cup scratch) = {}
                                  /\ head[c] \notin elems[c] /\ store[c] \notin elems[c]
                                  /\ head[c] # Nobody => head[c] # store[c]
                                  /\ head[c] = Nobody => elems[c] = {} /\ store[c] = Nobody
         /\ \A c, d \in Containers : c # d => elems[c] \cap elems[d] = {}
Quiet == (callers = {} /\ scratch = {} /\ \A c \in Containers : head[c] = Nobody)
            => blocks = {}
=============================================================================
