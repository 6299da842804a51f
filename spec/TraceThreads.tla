---------------------------- MODULE TraceThreads ----------------------------
(***************************************************************************)
(* Calls from several threads with the same inputs.  What a call returns   *)
(* is a function of the call (results are numbered by their type, shape    *)
(* and bytes); when no call is pending, the inputs are as they were and    *)
(* have as many references as before (Counted of Threads).                 *)
(***************************************************************************)
EXTENDS TraceUtil, FiniteSets

VARIABLES inputs,  \* [refs, bytes] of each
          table,   \* call -> result
          pending, \* thread -> call
          count    \* [calls: those that returned, threads: the threads that made some]
vars == <<inputs, table, pending, count, l>>

None == [x \in {} |-> 0]
Nothing == [calls |-> 0, threads |-> {}]
TraceInit == inputs = <<>> /\ table = None /\ pending = None /\ count = Nothing /\ l = 1

TNew == IsEvent("New") /\ inputs' = <<>> /\ table' = None /\ pending' = None /\ count' = Nothing
TInputs == IsEvent("Inputs") /\ inputs' = Ev.inputs /\ UNCHANGED <<table, pending, count>>

\* The same call has the same result, even when it is executed again
TAlone == /\ IsEvent("Alone")
          /\ Ev.call \in DOMAIN table => table[Ev.call] = Ev.value
          /\ table' = (Ev.call :> Ev.value) @@ table
          /\ UNCHANGED <<inputs, pending, count>>
TEnter == /\ IsEvent("Enter") /\ Ev.thread \notin DOMAIN pending
          /\ pending' = (Ev.thread :> Ev.call) @@ pending
          /\ UNCHANGED <<inputs, table, count>>
TReturn == /\ IsEvent("Return") /\ Ev.thread \in DOMAIN pending
           /\ \E c \in {pending[Ev.thread]} : c \in DOMAIN table /\ table[c] = Ev.value
           /\ pending' = [t \in DOMAIN pending \ {Ev.thread} |-> pending[t]]
           /\ count' = [calls |-> count.calls + 1, threads |-> count.threads \cup {Ev.thread}]
           /\ UNCHANGED <<inputs, table>>
TQuiet == /\ IsEvent("Quiet") /\ DOMAIN pending = {}
          /\ Ev.inputs = inputs
          /\ Ev.calls = count.calls /\ Ev.threads = Cardinality(count.threads)
          /\ UNCHANGED <<inputs, table, pending, count>>

TraceNext == TNew \/ TInputs \/ TAlone \/ TEnter \/ TReturn \/ TQuiet
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
