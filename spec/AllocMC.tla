------------------------------ MODULE AllocMC ------------------------------
(***************************************************************************)
(* The primitives of src/fsalloc.c over a machine with W-valued sizes and  *)
(* any reallocator that keeps its contract, installed and replaced at any  *)
(* time.  The zeroed allocation with its overflow guard never returns a    *)
(* block shorter than the mathematical product, and blocks are only        *)
(* resized or released while they are live.                                *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS W, Big, Owners, MaxBlocks     \* sizes 0..W-1; blocks over Big are refused
VARIABLES cur, live, last
vars == <<cur, live, last>>
Ids == 1 .. MaxBlocks
Nothing == [op |-> "none"]
Init == cur \in Owners /\ live = {} /\ last = Nothing
\* invoking the installed reallocator with NULL and a size: TRUE if it gives
Fresh == {i \in Ids : \A b \in live : b.id # i}
Gives(n) == n > 0 /\ n <= Big /\ Fresh # {}
Get(n, op) == \E give \in {TRUE, FALSE} :
    IF give /\ Gives(n)
    THEN LET i == CHOOSE x \in Fresh : TRUE
         IN  /\ live' = live \cup {[id |-> i, size |-> n, by |-> cur]}
             /\ last' = [op EXCEPT !.got = n] /\ UNCHANGED cur
    ELSE last' = [op EXCEPT !.got = -1] /\ UNCHANGED <<cur, live>>
Alloc(n) == Get(n, [op |-> "alloc", want |-> n, got |-> -1])
\* with machine arithmetic
CallocSize(n, m) == IF m > 0 /\ n > (W - 1) \div m THEN W - 1 ELSE (n * m) % W
Calloc(n, m) == Get(CallocSize(n, m), [op |-> "calloc", want |-> n * m, got |-> -1])
Free(b) == live' = live \ {b} /\ last' = [op |-> "free", by |-> b.by] /\ UNCHANGED cur
Install(o) == cur' = o /\ last' = Nothing /\ UNCHANGED live
Next == \/ \E n \in 0 .. W - 1 : Alloc(n)
        \/ \E n, m \in 0 .. W - 1 : Calloc(n, m)
        \/ \E b \in live : b.by = cur /\ Free(b)
        \/ \E o \in Owners : Install(o)
Spec == Init /\ [][Next]_vars
NeverShort == last.op \in {"alloc", "calloc"} => last.got = -1 \/ last.got >= last.want
ExactWhenSmall == last.op = "calloc" /\ last.got >= 0 => last.got = last.want
OneEach == \A b, c \in live : b.id = c.id => b = c
=============================================================================
