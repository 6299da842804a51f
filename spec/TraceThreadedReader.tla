------------------------- MODULE TraceThreadedReader -------------------------
(***************************************************************************)
(* Traces of SectorStreamThreadedReader::readAll: the blocks its functor   *)
(* got, in the order of the calls, and its end. Only complete frames are   *)
(* delivered; all of them are once readAll is done.                        *)
(***************************************************************************)
EXTENDS SectorReader, SectorFiles, TraceUtil

VARIABLES cfg, map
vars == <<secvars, cfg, map, l>>

TraceInit == /\ SecStart({}, {}) /\ l = 1 /\ map = <<>>
             /\ cfg = [version |-> 0]

TNew == /\ IsEvent("New")
        /\ cfg' = [version |-> Ev.version, scan |-> Ev.scan, size |-> Ev.size]
        /\ map' = FrameMap(Ev)
        /\ SecNew(0..3, StoredIn(Ev))

\* The header and the data of the block, when it was delivered and at the end
TDeliver ==
    /\ IsEvent("Deliver")
    /\ LET f == Ev.frame IN
       /\ f \in Complete
       /\ Deliver(f)
       /\ Ev.images = 1 /\ Ev.version = cfg.version
       /\ Ev.dims = <<cfg.size, cfg.size>> /\ Ev.scan = cfg.scan
       /\ Ev.numbers = <<map[f].image>>
       /\ Ev.complete = <<1>>
       /\ Ev.sectors = map[f].tags /\ Ev.later = map[f].tags
    /\ UNCHANGED <<cfg, map>>

TDone == /\ IsEvent("Done")
         /\ delivered = Complete
         /\ UNCHANGED <<secvars, cfg, map>>

TReset == IsEvent("Reset") /\ Reset /\ UNCHANGED <<cfg, map>>

TraceNext == TNew \/ TDeliver \/ TDone \/ TReset
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
