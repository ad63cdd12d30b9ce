---------------------------- MODULE TraceStrings ----------------------------
EXTENDS TraceBase, Strings, Repeats
Bit(b) == IF b THEN 1 ELSE 0
\* strings one after another, each with its terminator
Flat(ss) == Concat([i \in 1 .. Len(ss) |-> Append(ss[i], 0)])
Most(e) == IF e.b = 0 THEN 1000 ELSE ShortTimes(e.in, e.b)
LongCompare(e, s, t) ==
    CASE e.f = "cmp" -> e.r = <<CaseCmp(s, t), NCaseCmp(s, t, ShortLen(e.in, e.a) + e.b)>>
      [] e.f = "ends" -> e.r = <<Bit(EndsWith(s, t))>>
      [] e.f = "skip" ->
           LET exact == Bit(StartsWith(s, t))
               loose == Bit(StartsWith(LowerAll(s), LowerAll(t)))
           IN  e.r = <<exact, exact, loose, loose>>
LongResult(e, s) ==
    CASE e.f = "split" -> Flat(Split(s, <<e.a>>, Most(e)))
      [] e.f = "str" -> Flat(Split(s, SubSeq(e.in[e.a + 1][1], 1, 2), Most(e)))
      [] e.f = "atoms" -> Flat(Atoms(s))
      [] e.f = "strip" -> Strip(s)
      [] e.f = "dup" -> s
      [] e.f = "sub" -> SubSeq(s, ShortLen(e.in, e.a) + 1, ShortLen(e.in, e.b))
      [] e.f = "lower" -> LowerAll(s)
      [] e.f = "upper" -> UpperAll(s)
Long == /\ Is("long")
        /\ IF Ev.f \in {"cmp", "ends", "skip"}
           THEN LongCompare(Ev, Short(Ev.in), Short(Ev.in2))
           ELSE LongShows(Ev, LongResult(Ev, Short(Ev.in)))
vars == <<l>>
Init == CaseInit
Next == \/ Is("split") /\ SplitShows(Ev)
        \/ Is("atoms") /\ AtomsShow(Ev)
        \/ Is("strip") /\ StripShows(Ev)
        \/ Is("nulls") /\ NullsShow(Ev)
        \/ Is("dup") /\ DupShows(Ev)
        \/ Is("sub") /\ SubShows(Ev)
        \/ Is("cmp") /\ CmpShows(Ev)
        \/ Is("ncmp") /\ NCmpShows(Ev)
        \/ Is("ends") /\ EndsShow(Ev)
        \/ Is("skip") /\ SkipShows(Ev)
        \/ Is("cases") /\ CasesShow(Ev)
        \/ Is("ranges") /\ RangesShow(Ev)
        \/ Is("class") /\ ClassShows(Ev)
        \/ Long
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
