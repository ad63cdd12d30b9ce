------------------------------ MODULE AvlTree ------------------------------
(***************************************************************************)
(* The algorithm of src/avltree.c on one tree: insertion with retracing,   *)
(* removal by exchanging with an adjacent descendant, the four rotations   *)
(* and their balance factor arithmetic, transcribed.  A node is            *)
(* <<key, left, right, balance>>; the empty tree is <<>>.                  *)
(*                                                                         *)
(* TLC checks that every reachable tree is an AVL search tree and that     *)
(* each step is a step of the ordered map AvlMap (refinement); the edges   *)
(* of its state graph are replayed into the real code.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxKey
Keys == 1 .. MaxKey

VARIABLES root, op

Nil == <<>>
Key(n) == n[1]
L(n) == n[2]
R(n) == n[3]
B(n) == n[4]
N(k, l, r, b) == <<k, l, r, b>>

(* rotate_right/rotate_left: e's left (right) side is two levels deeper.   *)
RotateRight(e) ==
    LET l == L(e) IN
    IF B(l) <= 0
    THEN LET nb == B(l) + 1 IN
         N(Key(l), L(l), N(Key(e), R(l), R(e), -nb), nb)
    ELSE LET t == R(l) IN
         N(Key(t), N(Key(l), L(l), L(t), -((1 + B(t)) \div 2)),
                   N(Key(e), R(t), R(e), (1 - B(t)) \div 2), 0)

RotateLeft(e) ==
    LET r == R(e) IN
    IF B(r) >= 0
    THEN LET nb == B(r) - 1 IN
         N(Key(r), N(Key(e), L(e), L(r), -nb), R(r), nb)
    ELSE LET t == L(r) IN
         N(Key(t), N(Key(e), L(e), L(t), -((1 + B(t)) \div 2)),
                   N(Key(r), R(t), R(r), (1 - B(t)) \div 2), 0)

(* put: <<new subtree, has it grown>>                                      *)
RECURSIVE PutAt(_, _)
PutAt(n, k) ==
    IF n = Nil THEN <<N(k, Nil, Nil, 0), TRUE>>
    ELSE IF k = Key(n) THEN <<n, FALSE>>
    ELSE IF k < Key(n)
    THEN LET s == PutAt(L(n), k)
             b == B(n) - 1
             m == N(Key(n), s[1], R(n), b)
         IN  IF ~s[2] THEN <<N(Key(n), s[1], R(n), B(n)), FALSE>>
             ELSE IF b = -2 THEN <<RotateRight(m), FALSE>>
             ELSE <<m, b = -1>>
    ELSE LET s == PutAt(R(n), k)
             b == B(n) + 1
             m == N(Key(n), L(n), s[1], b)
         IN  IF ~s[2] THEN <<N(Key(n), L(n), s[1], B(n)), FALSE>>
             ELSE IF b = 2 THEN <<RotateLeft(m), FALSE>>
             ELSE <<m, b = 1>>

RECURSIVE MinKey(_), MaxKeyOf(_)
MinKey(n) == IF L(n) = Nil THEN Key(n) ELSE MinKey(L(n))
MaxKeyOf(n) == IF R(n) = Nil THEN Key(n) ELSE MaxKeyOf(R(n))

(* lighten_left/lighten_right: the left (right) side has lost a level;     *)
(* <<new subtree, has it shrunk>>.                                         *)
LightenLeft(n) ==
    LET b == B(n) + 1
        m == N(Key(n), L(n), R(n), b)
    IN  IF b = 0 THEN <<m, TRUE>>
        ELSE IF b = 2 THEN LET t == RotateLeft(m) IN <<t, B(t) # -1>>
        ELSE <<m, FALSE>>
LightenRight(n) ==
    LET b == B(n) - 1
        m == N(Key(n), L(n), R(n), b)
    IN  IF b = 0 THEN <<m, TRUE>>
        ELSE IF b = -2 THEN LET t == RotateRight(m) IN <<t, B(t) # 1>>
        ELSE <<m, FALSE>>

(* avl_tree_detach: trade places with the predecessor below (or else the   *)
(* successor below) until a leaf, unlink it, retrace.                      *)
RECURSIVE Detach(_, _)
Detach(n, k) ==
    IF k < Key(n)
    THEN LET s == Detach(L(n), k)
             m == N(Key(n), s[1], R(n), B(n))
         IN  IF s[2] THEN LightenLeft(m) ELSE <<m, FALSE>>
    ELSE IF k > Key(n)
    THEN LET s == Detach(R(n), k)
             m == N(Key(n), L(n), s[1], B(n))
         IN  IF s[2] THEN LightenRight(m) ELSE <<m, FALSE>>
    ELSE IF L(n) = Nil /\ R(n) = Nil THEN <<Nil, TRUE>>
    ELSE IF L(n) # Nil
    THEN LET p == MaxKeyOf(L(n))
             s == Detach(L(n), p)
             m == N(p, s[1], R(n), B(n))
         IN  IF s[2] THEN LightenLeft(m) ELSE <<m, FALSE>>
    ELSE LET q == MinKey(R(n))
             s == Detach(R(n), q)
             m == N(q, L(n), s[1], B(n))
         IN  IF s[2] THEN LightenRight(m) ELSE <<m, FALSE>>

(* ------------------------------- properties ---------------------------- *)

RECURSIVE Height(_), KeysOf(_)
Height(n) == IF n = Nil THEN 0
             ELSE 1 + (IF Height(L(n)) > Height(R(n))
                       THEN Height(L(n)) ELSE Height(R(n)))
KeysOf(n) == IF n = Nil THEN <<>>
             ELSE KeysOf(L(n)) \o <<Key(n)>> \o KeysOf(R(n))

RECURSIVE Balanced(_)
Balanced(n) == n = Nil \/
    /\ B(n) = Height(R(n)) - Height(L(n))
    /\ B(n) \in {-1, 0, 1}
    /\ Balanced(L(n)) /\ Balanced(R(n))

\* the smallest AVL tree of height h
RECURSIVE MinNodes(_)
MinNodes(h) == IF h <= 1 THEN h ELSE 1 + MinNodes(h - 1) + MinNodes(h - 2)

InOrder == \A i \in 1 .. Len(KeysOf(root)) - 1 :
               KeysOf(root)[i] < KeysOf(root)[i + 1]
Avl == Balanced(root)
Logarithmic == MinNodes(Height(root)) <= Len(KeysOf(root))

(* ------------------------------- behaviour ----------------------------- *)

InTree(k) == \E i \in 1 .. Len(KeysOf(root)) : KeysOf(root)[i] = k

Init == root = Nil /\ op = <<"init">>

Put(k) == /\ root' = PutAt(root, k)[1]
          /\ op' = <<"put", k>>
Pop(k) == /\ root' = IF InTree(k) THEN Detach(root, k)[1] ELSE root
          /\ op' = <<"pop", k>>
PopFirst == /\ root' = IF root = Nil THEN Nil
                       ELSE Detach(root, MinKey(root))[1]
            /\ op' = <<"popf">>
PopLast == /\ root' = IF root = Nil THEN Nil
                      ELSE Detach(root, MaxKeyOf(root))[1]
           /\ op' = <<"popl">>

Next == \/ \E k \in Keys : Put(k) \/ Pop(k)
        \/ PopFirst \/ PopLast

vars == <<root, op>>
Spec == Init /\ [][Next]_vars

View == root

(* Every step is a step of the ordered map (identities and values are not  *)
(* modelled here: each key is its own identity and value).                 *)
Triples(n) == [i \in 1 .. Len(KeysOf(n)) |->
                   <<KeysOf(n)[i], KeysOf(n)[i], KeysOf(n)[i]>>]
Map == INSTANCE AvlMap WITH tree <- <<Triples(root)>>, loose <- <<>>

StepRefines ==
    LET m == Triples(root)  m2 == Triples(root') IN
    CASE op'[1] = "put"  -> m2 = Map!PutIn(m, <<op'[2], op'[2], op'[2]>>)
      [] op'[1] = "pop"  -> m2 = Map!Without(m, op'[2])
      [] op'[1] = "popf" -> m2 = IF m = <<>> THEN m ELSE Tail(m)
      [] op'[1] = "popl" -> m2 = IF m = <<>> THEN m ELSE SubSeq(m, 1, Len(m) - 1)
Refines == [][StepRefines]_vars

(* Emit the labelled state graph for the replay.                           *)
Emit == PrintT(ToJson(<<"EDGE", ToString(root), op', ToString(root')>>))
=============================================================================
