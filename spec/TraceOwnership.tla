--------------------------- MODULE TraceOwnership ---------------------------
(* Values are strings; Check has the values that were found in an array *)
EXTENDS Ownership, TraceUtil

TraceInit == Init /\ l = 1
tvars == <<vars, l>>

TNew == IsEvent("New") /\ held' = <<>> /\ mem' = <<>>
TMake == IsEvent("Make") /\ Make(Ev.a, Ev.values)
TView == IsEvent("View") /\ View(Ev.a, Ev.b, Ev.index)
TCopy == IsEvent("Copy") /\ Copy(Ev.a, Ev.b, Ev.index)
TWrite == IsEvent("Write") /\ Write(Ev.a, Ev.i, Ev.value)
TDrop == IsEvent("Drop") /\ Drop(Ev.a)
TOther == IsEvent("Other") /\ Other
TCheck == IsEvent("Check") /\ Ev.values = Values(Ev.a) /\ UNCHANGED vars

TraceNext == TNew \/ TMake \/ TView \/ TCopy \/ TWrite \/ TDrop \/ TOther \/ TCheck
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
