----------------------------- MODULE SectorReader -----------------------------
(***************************************************************************)
(* The single pass reader of the sector formats (file versions 4 and 5),   *)
(* as its users see it: stempy.io.SectorReader.                            *)
(*                                                                         *)
(* The detector writes the sectors of every frame to separate files, in no *)
(* particular order; some may be missing, and there may be any number of   *)
(* frames at a scan position. `stored` has the sectors that are completely *)
(* in the files, as a set of <<frame, sector>>. The reader delivers every  *)
(* frame of which there is a sector exactly once: first the complete ones  *)
(* and, once there are no more of them, the partial ones. The order within *)
(* the two groups is not specified.                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
    sectors,   \* the sectors of the detector, e.g. 0..3
    stored,    \* the sectors in the files
    delivered, \* the frames that were delivered since the start or the reset
    reply      \* the reply to the last call

secvars == <<sectors, stored, delivered, reply>>

FramesOf(s) == {x[1] : x \in s}
Has(f) == {x[2] : x \in {y \in stored : y[1] = f}}
Complete == {f \in FramesOf(stored) : Has(f) = sectors}
Partial  == FramesOf(stored) \ Complete

Nothing == [kind |-> "None"]

SecStart(ss, st) == sectors = ss /\ stored = st /\ delivered = {} /\ reply = Nothing
SecNew(ss, st) == sectors' = ss /\ stored' = st /\ delivered' = {} /\ reply' = Nothing

Deliver(f) ==
    /\ f \notin delivered
    /\ f \in FramesOf(stored)
    /\ f \in Partial => Complete \subseteq delivered
    /\ delivered' = delivered \cup {f}
    \* The missing sectors of a partial frame are zero
    /\ reply' = [kind |-> "Block", frame |-> f, has |-> Has(f)]
    /\ UNCHANGED <<sectors, stored>>

End == /\ delivered = FramesOf(stored)
       /\ reply' = [kind |-> "End"]
       /\ UNCHANGED <<sectors, stored, delivered>>

Reset == delivered' = {} /\ reply' = Nothing /\ UNCHANGED <<sectors, stored>>

SecNext == (\E f \in FramesOf(stored) : Deliver(f)) \/ End \/ Reset

\* The number of sectors stored; data_captured() is the ratio to the expected
\* number, for one frame at each position
Captured == Cardinality(stored)
=============================================================================
