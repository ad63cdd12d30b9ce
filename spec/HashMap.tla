------------------------------ MODULE HashMap ------------------------------
(***************************************************************************)
(* What a user of fsdyn's hash tables sees: maps (sets of associations     *)
(* <<k, id, v>> with distinct k) and a pool of detached associations.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES table,    \* [slot -> set of associations, or NoTable]
          detached  \* sequence of associations or GoneAssoc

NoTable == {<<-1, -1, -1>>}
GoneAssoc == <<-1, -1, -1>>

Find(m, k) == {a \in m : a[1] = k}
Assoc(m, k) == CHOOSE a \in m : a[1] = k
Functional(m) == \A a, b \in m : a[1] = b[1] => a = b

LiveTable(t) == table[t] # NoTable
JoinDetached(r) == detached' = detached \o r

HNew(t) == /\ ~LiveTable(t) /\ table' = [table EXCEPT ![t] = {}]
           /\ UNCHANGED detached

\* r: <<>> or <<association>> as returned
HPut(t, k, id, v, r) ==
    LET old == Find(table[t], k) IN
    /\ LiveTable(t)
    /\ IF old = {}
       THEN r = <<>> /\ table' = [table EXCEPT ![t] = @ \cup {<<k, id, v>>}]
       ELSE IF Assoc(table[t], k)[3] = v
       THEN r = <<>> /\ UNCHANGED table
       ELSE /\ r = <<Assoc(table[t], k)>>
            /\ table' = [table EXCEPT ![t] = (@ \ old) \cup {<<k, id, v>>}]
    /\ JoinDetached(r)

HPop(t, k, r) ==
    LET old == Find(table[t], k) IN
    /\ LiveTable(t)
    /\ r = IF old = {} THEN <<>> ELSE <<Assoc(table[t], k)>>
    /\ table' = [table EXCEPT ![t] = @ \ old]
    /\ JoinDetached(r)

HRemove(t, k, had) ==
    LET old == Find(table[t], k) IN
    /\ LiveTable(t)
    /\ had = (old # {})
    /\ table' = [table EXCEPT ![t] = @ \ old]
    /\ UNCHANGED detached

\* any association may come, but one must while there is one
HPopAny(t, r) ==
    /\ LiveTable(t)
    /\ IF table[t] = {} THEN r = <<>> /\ UNCHANGED table
       ELSE \E a \in table[t] : r = <<a>> /\ table' = [table EXCEPT ![t] = @ \ {a}]
    /\ JoinDetached(r)

HDestroy(t) == /\ LiveTable(t) /\ table' = [table EXCEPT ![t] = NoTable]
               /\ UNCHANGED detached

HDrop(i) == /\ i \in 1 .. Len(detached) /\ detached[i] # GoneAssoc
            /\ detached' = [detached EXCEPT ![i] = GoneAssoc]
            /\ UNCHANGED table

(* observations *)
HSees(t, n, empty) ==
    LiveTable(t) /\ n = Cardinality(table[t]) /\ empty = (table[t] = {})
HGets(t, k, g) == g = IF Find(table[t], k) = {} THEN <<>> ELSE Assoc(table[t], k)
\* w enumerates the table, each association exactly once; any is its first
HWalks(t, any, w) ==
    /\ LiveTable(t)
    /\ Len(w) = Cardinality(table[t])
    /\ {w[i] : i \in 1 .. Len(w)} = table[t]
    /\ (any = <<>>) = (table[t] = {})
    /\ any # <<>> => any \in table[t]

TablesFunctional == \A t \in DOMAIN table :
    LiveTable(t) => Cardinality({a[1] : a \in table[t]}) = Cardinality(table[t])
=============================================================================
