--------------------------- MODULE TraceNormalize ---------------------------
EXTENDS TraceBase, Normalize
R == INSTANCE Repeats
(* Long strings.  The room is enough for the result if e.r is there; else  *)
(* one byte too little.                                                    *)
LongAnswers(e, s, cs) ==
    LET a == <<Answer(s, 1, 2), Answer(s, 4, 8), Answer(s, 16, 32), Answer(s, 64, 128)>>
    IN  e.r = a /\ e.c = (a[1] = 0) /\ e.dc = (a[2] = 0)
LongConverts(e, cs) ==
    CASE e.f = "decompose" -> R!LongShows(e, EncodeAll(NFD(cs)))
      [] e.f = "recompose" -> IsNFD(cs) /\ R!LongShows(e, EncodeAll(NFC(cs)))
      [] e.f \in {"dshort", "rshort"} -> ~e.out.ok /\ e.err = "EOVERFLOW"
LongCase(e, s) == IF e.f = "detect" THEN LongAnswers(e, s, Cps(s))
                  ELSE Valid(s) /\ LongConverts(e, Cps(s))
Long == Is("long") /\ LongCase(Ev, R!Short(Ev.in))
vars == <<l>>
Init == CaseInit
Next == \/ Is("nfd") /\ DecomposeShows(Ev)
        \/ Is("nfc") /\ RecomposeShows(Ev)
        \/ Is("detect") /\ DetectShows(Ev)
        \/ Long
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
