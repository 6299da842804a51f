--------------------------- MODULE TracePipelines ---------------------------
(***************************************************************************)
(* Traces of calls of pipelines.                                           *)
(***************************************************************************)
EXTENDS Pipelines, TraceUtil

VARIABLES pipes \* id |-> [declared, meta]
vars == <<pipes, l>>
TraceInit == pipes = <<>> /\ l = 1

TNew == IsEvent("New") /\ pipes' = <<>>
        /\ Ev.constants = <<"image", "frame", "sum", "max", "min", "mean", "median">>
TDeclare == /\ IsEvent("Declare")
            /\ Ev.id = Len(pipes) + 1
            /\ pipes' = Append(pipes, [declared |-> Ev.declared, meta |-> Ev.meta])
TDescribe == /\ IsEvent("Describe") /\ UNCHANGED pipes
             /\ Ev.parameters = Registered(pipes[Ev.id].declared)
             /\ Ev.meta = pipes[Ev.id].meta
TCall == /\ IsEvent("Call") /\ UNCHANGED pipes
         /\ \E given \in {[n \in {Ev.given[k][1] : k \in 1..Len(Ev.given)} |->
                             Ev.given[CHOOSE k \in 1..Len(Ev.given) : Ev.given[k][1] = n][2]]} :
              LET r == Received(pipes[Ev.id].declared, given)
              IN /\ {<<Ev.received[k][1], Ev.received[k][2]>> : k \in 1..Len(Ev.received)}
                      = {<<n, r[n]>> : n \in DOMAIN r}
                 /\ Ev.input = Ev.passed /\ Ev.result = Ev.returned
TraceNext == TNew \/ TDeclare \/ TDescribe \/ TCall
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
