------------------------------ MODULE TraceUcd ------------------------------
(***************************************************************************)
(* The properties of all codepoints, a page of 256 at a time, as runs      *)
(* <<from, to, value>>; case mappings as the pairs that are not identity;  *)
(* IDNA mappings as <<codepoint, bytes>>.                                  *)
(***************************************************************************)
EXTENDS TraceBase, Ucd, Utf8
vars == <<l>>
Init == CaseInit
Page(e) == e.p * 256 .. (e.p * 256) + 255
Covers(e, rs) == /\ Len(rs) > 0 /\ rs[1][1] = e.p * 256
                 /\ rs[Len(rs)][2] = (e.p * 256) + 255
                 /\ \A k \in 1 .. Len(rs) - 1 : rs[k + 1][1] = rs[k][2] + 1
Agrees(e, rs, f(_)) ==
    Covers(e, rs) /\ \A k \in 1 .. Len(rs) : \A c \in rs[k][1] .. rs[k][2] : rs[k][3] = f(c)
\* pairs of exactly those that change
RECURSIVE Changes(_, _, _)
Changes(f(_), c, last) ==
    IF c > last THEN <<>>
    ELSE IF f(c) # c THEN <<<<c, f(c)>>>> \o Changes(f, c + 1, last)
    ELSE Changes(f, c + 1, last)
Properties(e) ==
    /\ Agrees(e, e.cat, Cat) /\ Agrees(e, e.ccc, Ccc) /\ Agrees(e, e.flags, Flags)
    /\ e.lower = Changes(LowerOf, e.p * 256, (e.p * 256) + 255)
    /\ e.upper = Changes(UpperOf, e.p * 256, (e.p * 256) + 255)
\* the seven predicates as a bit mask: exactly one holds, the right one, and
\* the name is the right one
Mask(c) == 2 ^ Status(c)
NameOk(rs) == \A k \in 1 .. Len(rs) :
    \A c \in rs[k][1] .. rs[k][2] : rs[k][3] = Statuses[Status(c) + 1]
Mappings(e) ==
    LET cs == SelectSeq([i \in 1 .. 256 |-> (e.p * 256) + (i - 1)], HasMapping)
    IN  e.maps = [i \in 1 .. Len(cs) |-> <<cs[i], EncodeAll(MappingOf(cs[i]))>>]
Idna(e) == /\ Agrees(e, e.mask, Mask) /\ Covers(e, e.name) /\ NameOk(e.name)
           /\ Mappings(e)
Next == \/ Is("ucd") /\ Properties(Ev)
        \/ Is("idnatab") /\ Idna(Ev)
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
