------------------------------- MODULE Owners -------------------------------
(***************************************************************************)
(* Ownership of library objects: a shared byte array has a count of its    *)
(* owners; the C++ wrappers (std::unique_ptr with the library's release    *)
(* function) are owners that give up their share exactly once.  owner[w]   *)
(* is the object that wrapper w owns, 0 if none; bare[o] the number of     *)
(* shares of o that are not in a wrapper.  An object lives while it has a  *)
(* share.                                                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES owner, bare, made     \* made: number of objects created so far
ovars == <<owner, bare, made>>

Wrapped(o) == Cardinality({w \in DOMAIN owner : owner[w] = o})
Shares(o) == Wrapped(o) + bare[o]
LiveObjects == {o \in DOMAIN bare : Shares(o) > 0}

\* a fresh object goes into wrapper w, whose old share is given up
OMake(w) == /\ made' = made + 1
            /\ owner' = [owner EXCEPT ![w] = made + 1]
            /\ bare' = [o \in 1 .. made + 1 |-> IF o <= made THEN bare[o] ELSE 0]
OReset(w) == /\ owner' = [owner EXCEPT ![w] = 0] /\ UNCHANGED <<bare, made>>
\* w takes over what v has (nothing happens for w = v)
OMove(w, v) == /\ owner' = IF w = v THEN owner
                           ELSE [owner EXCEPT ![w] = owner[v], ![v] = 0]
               /\ UNCHANGED <<bare, made>>
OSwap(w, v) == /\ owner' = [owner EXCEPT ![w] = owner[v], ![v] = owner[w]]
               /\ UNCHANGED <<bare, made>>
\* release() and then releasing the bare share with the C function
ORelease(w) == /\ owner' = [owner EXCEPT ![w] = 0]
               /\ bare' = IF owner[w] = 0 THEN bare
                          ELSE [bare EXCEPT ![owner[w]] = @ + 1]
               /\ UNCHANGED made
OFree(o) == /\ o \in DOMAIN bare /\ bare[o] > 0
            /\ bare' = [bare EXCEPT ![o] = @ - 1]
            /\ UNCHANGED <<owner, made>>
\* wrapper w gets another share of what v has (w # v, v not empty)
OShare(w, v) == /\ w # v /\ owner[v] # 0
                /\ owner' = [owner EXCEPT ![w] = owner[v]]
                /\ UNCHANGED <<bare, made>>

OInit == owner = [w \in 1 .. 2 |-> 0] /\ bare = <<>> /\ made = 0
ONext == \/ \E w \in DOMAIN owner : OMake(w) \/ OReset(w) \/ ORelease(w)
         \/ \E w, v \in DOMAIN owner : OMove(w, v) \/ OSwap(w, v) \/ OShare(w, v)
         \/ \E o \in DOMAIN bare : OFree(o)
OSpec == OInit /\ [][ONext]_ovars
OBound == made <= 3 /\ \A o \in DOMAIN bare : bare[o] <= 2

\* once gone, an object never comes back
NoResurrection == [][\A o \in DOMAIN bare : Shares(o) = 0 => (Shares(o))' = 0]_ovars
\* a step gives up at most one share, and takes at most one
OneAtATime == [][\A o \in DOMAIN bare :
                     Shares(o)' - Shares(o) \in {-1, 0, 1}]_ovars
=============================================================================
