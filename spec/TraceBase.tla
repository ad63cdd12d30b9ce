----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of the trace specifications.  The log of a driver run is a  *)
(* sequence of events; "case" events separate independent cases.  Each     *)
(* case is one behaviour: it starts at its "case" event and consumes one   *)
(* event per step, so an event that no action explains shows up as a       *)
(* deadlock in the state before it.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

VARIABLE l      \* the last event consumed

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
Starts == {i \in 1 .. TraceLen : Trace[i].op = "case"}

CaseInit == l \in Starts
More == l < TraceLen /\ Trace[l + 1].op # "case"
Ev == Trace[l + 1]
Is(name) == More /\ Ev.op = name /\ l' = l + 1
CaseDone == ~More
=============================================================================
