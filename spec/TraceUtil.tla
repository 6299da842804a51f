------------------------------ MODULE TraceUtil ------------------------------
(***************************************************************************)
(* Shared by all trace specifications: the recorded trace (a file with one *)
(* JSON object per line, named by the environment variable TRACE), the     *)
(* position l in it, and the postcondition that all of it was consumed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == TraceLog[l]

IsEvent(e) == /\ l <= Len(TraceLog)
              /\ TraceLog[l].ev = e
              /\ l' = l + 1

TraceAccepted ==
    \/ TLCGet("stats").diameter - 1 = Len(TraceLog)
    \/ PrintT(<<"STUCK", TLCGet("stats").diameter>>) /\ FALSE

TraceAlias == [l |-> l]
=============================================================================
