------------------------------ MODULE TraceUrl ------------------------------
EXTENDS TraceBase, Url, Repeats
VARIABLE encoders       \* slot -> encoder
vars == <<l, encoders>>
ToSet(s) == {s[i] : i \in 1 .. Len(s)}
Init == CaseInit /\ encoders = <<>>
Known(t) == t = -1 \/ t \in DOMAIN encoders
Enc(t) == IF t = -1 THEN None ELSE encoders[t]
New == /\ Is("wnew")
       /\ encoders' = [t \in DOMAIN encoders \cup {Ev.t} |->
            IF t = Ev.t THEN [res |-> ToSet(Ev.a), unres |-> ToSet(Ev.b)]
            ELSE encoders[t]]
Del == /\ Is("wdel") /\ Ev.t \in DOMAIN encoders
       /\ encoders' = [t \in DOMAIN encoders \ {Ev.t} |-> encoders[t]]
Encode == /\ Is("wenc") /\ Known(Ev.t) /\ EncodeShows(Enc(Ev.t), Ev)
          /\ UNCHANGED encoders
Bytes == /\ Is("wbytes") /\ Known(Ev.t) /\ BytesShow(Enc(Ev.t), Ev)
         /\ UNCHANGED encoders
Dec == Is("wdec") /\ DecodeShows(Ev) /\ UNCHANGED encoders
\* an encoder told to reserve x, y and z and to leave the space alone
Odd == [res |-> {120, 121, 122}, unres |-> {32}]
Sure(e, s) == Concat([i \in 1 .. Len(s) |-> CHOOSE c \in ByteCodes(e, s[i]) : TRUE])
Long == /\ Is("long") /\ UNCHANGED encoders
        /\ \/ /\ Ev.f = "url"
              /\ LongShows(Ev, Sure(IF Ev.a = 1 THEN Odd ELSE None, Short(Ev.in)))
           \/ /\ Ev.f = "unurl" /\ Legal(Short(Ev.in))
              /\ LongShows(Ev, Decode(Short(Ev.in), Ev.a = 1))
Next == \/ Long \/ New \/ Del \/ Encode \/ Bytes \/ Dec
        \/ (CaseDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
