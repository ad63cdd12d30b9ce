----------------------------- MODULE TraceLarge -----------------------------
(* Is the log of a run with large containers a behaviour of Large?         *)
EXTENDS TraceBase, Large
vars == <<l, vars0>>
bvars == <<len, max, owners>>
qvars == <<prio, queued>>
Init == /\ CaseInit /\ has = <<>> /\ seq = <<>> /\ prio = <<>>
        /\ queued = <<>> /\ len = 0 /\ max = 0 /\ owners = 0

Map == UNCHANGED <<seq, qvars, bvars>>
List == UNCHANGED <<has, qvars, bvars>>
Queue == UNCHANGED <<has, seq, bvars>>
Bytes == UNCHANGED <<has, seq, qvars>>

Next ==
    \/ Is("mnew") /\ has' = Nothing(Ev.keys) /\ Map
    \/ Is("mload") /\ MLoad(Ev.a, Ev.n, Ev.s, Ev.count, Ev.wrong) /\ Map
    \/ Is("mdrop") /\ MDrop(Ev.a, Ev.n, Ev.s, Ev.count, Ev.wrong) /\ Map
    \/ Is("many") /\ MAny(Ev.n, Ev.r, Ev.at, Ev.first) /\ Map
    \/ Is("mobs") /\ MSees(Ev.n, Ev.e, Ev.w, Ev.at, Ev.sorted, Ev.g) /\ UNCHANGED vars0
    \/ Is("inew") /\ has' = Nothing(Ev.cap) /\ Map
    \/ Is("iadd") /\ has' = Plus(has, Ev.a, Ev.n, Ev.s) /\ Map
    \/ Is("irem") /\ has' = Minus(has, Ev.a, Ev.n, Ev.s) /\ Map
    \/ Is("iobs") /\ ISees(Ev.e, Ev.x) /\ UNCHANGED vars0
    \/ Is("lnew") /\ seq' = <<>> /\ List
    \/ Is("lapp") /\ LApp(Ev.a, Ev.n) /\ List
    \/ Is("lpre") /\ LPre(Ev.a, Ev.n) /\ List
    \/ Is("lpopf") /\ LPopF(Ev.n, Ev.r) /\ List
    \/ Is("lpopl") /\ LPopL(Ev.n, Ev.r) /\ List
    \/ Is("lcopy") /\ UNCHANGED vars0
    \/ Is("lobs") /\ LSees(Ev.n, Ev.e, Ev.f, Ev.b, Ev.each, Ev.x) /\ UNCHANGED vars0
    \/ Is("qnew") /\ prio' = <<>> /\ queued' = <<>> /\ Queue
    \/ Is("qload") /\ QLoad(Ev.a, Ev.p) /\ Queue
    \/ Is("qtake") /\ QTake(Ev.n, Ev.r, Ev.at, Ev.agree) /\ Queue /\ UNCHANGED prio
    \/ Is("qrem") /\ QRem(Ev.a, Ev.n, Ev.s, Ev.r) /\ Queue /\ UNCHANGED prio
    \/ Is("qsize") /\ QSees(Ev.n, Ev.e) /\ UNCHANGED vars0
    \/ Is("bnew") /\ len' = 0 /\ max' = Ev.max /\ owners' = 1 /\ Bytes
    \/ Is("bapp") /\ BApp(Ev.pos, Ev.n, Ev.r) /\ Bytes /\ UNCHANGED <<max, owners>>
    \/ Is("bcop") /\ BCop(Ev.pos, Ev.n, Ev.r) /\ Bytes /\ UNCHANGED <<max, owners>>
    \/ Is("bstr") /\ BStr(Ev.n, Ev.r) /\ Bytes /\ UNCHANGED <<max, owners>>
    \/ Is("bcut") /\ BCut(Ev.n, Ev.r) /\ Bytes /\ UNCHANGED <<max, owners>>
    \/ Is("bshare") /\ BShare(Ev.n, Ev.same) /\ Bytes /\ UNCHANGED <<len, max>>
    \/ Is("bdel") /\ BDel(Ev.n, Ev.gone, Ev.left) /\ Bytes /\ UNCHANGED <<len, max>>
    \/ Is("bobs") /\ BSees(Ev.n, Ev.nul, Ev.x) /\ UNCHANGED vars0
    \/ CaseDone /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
