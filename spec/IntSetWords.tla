---------------------------- MODULE IntSetWords ----------------------------
(***************************************************************************)
(* The algorithm of src/intset.c with words of W bits: bits beyond the     *)
(* capacity may be set by a fill; searches scan word by word.  TLC checks  *)
(* every search from every starting point in every reachable state.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS W, MaxCap
VARIABLES cap, word, op
vars == <<cap, word, op>>

Bits == 0 .. W - 1
Words(c) == (c + W - 1) \div W

Init == /\ cap \in 0 .. MaxCap
        /\ word = [i \in 0 .. Words(cap) - 1 |-> {}]
        /\ op = <<"init">>

AllZero(S) == S = {}
Add(x) == /\ word' = IF x < cap THEN [word EXCEPT ![x \div W] = @ \cup {x % W}]
                     ELSE word
          /\ op' = <<"add", x>> /\ UNCHANGED cap
Rem(x) == /\ word' = IF x < cap THEN [word EXCEPT ![x \div W] = @ \ {x % W}]
                     ELSE word
          /\ op' = <<"rem", x>> /\ UNCHANGED cap
Fill == /\ word' = [i \in DOMAIN word |-> Bits]
        /\ op' = <<"fill">> /\ UNCHANGED cap
Next == Fill \/ \E x \in 0 .. cap + 1 : Add(x) \/ Rem(x)
Spec == Init /\ [][Next]_vars

HasW(x) == x < cap /\ (x % W) \in word[x \div W]
Lowest(S) == CHOOSE b \in S : \A c \in S : b <= c
Content(i, hit) == IF hit THEN word[i] ELSE Bits \ word[i]
RECURSIVE Scan(_, _)
Scan(e, hit) ==   \* e is a multiple of W
    IF e >= cap THEN -1
    ELSE IF AllZero(Content(e \div W, hit)) THEN Scan(e + W, hit)
    ELSE LET r == e + Lowest(Content(e \div W, hit)) IN
         IF r >= cap THEN -1 ELSE r
FindNext(x, hit) ==
    IF x >= cap THEN -1
    ELSE LET here == {b \in Content(x \div W, hit) : b >= (x % W)}
             r == (x - (x % W)) + Lowest(here)
         IN  IF AllZero(here) THEN Scan((x - (x % W)) + W, hit)
             ELSE IF r >= cap THEN -1 ELSE r

Members == {x \in 0 .. cap - 1 : HasW(x)}
Abs == INSTANCE IntSet WITH icap <- <<cap>>, iset <- <<Members>>
SearchesRight == \A x \in 0 .. cap + W :
    FindNext(x, TRUE) = Abs!NextHit(1, x) /\ FindNext(x, FALSE) = Abs!NextMiss(1, x)
StepRefines == CASE op'[1] = "add" -> Abs!IAdd(1, op'[2])
                 [] op'[1] = "rem" -> Abs!IRemove(1, op'[2])
                 [] op'[1] = "fill" -> Abs!IFill(1)
Refines == [][StepRefines]_vars
View == <<cap, word>>
Emit == PrintT(ToJson(<<"EDGE", ToString(<<cap, word>>), op',
                        ToString(<<cap', word'>>)>>))
=============================================================================
