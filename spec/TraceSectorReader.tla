-------------------------- MODULE TraceSectorReader --------------------------
(* Traces of stempy.io.SectorReader *)
EXTENDS SectorReader, SectorFiles, TraceUtil

VARIABLES cfg, map, held
vars == <<secvars, cfg, map, held, l>>

TraceInit == /\ SecStart({}, {}) /\ held = <<>> /\ l = 1 /\ map = <<>>
             /\ cfg = [version |-> 0]

TNew == /\ IsEvent("New")
        /\ cfg' = [version |-> Ev.version, scan |-> Ev.scan, size |-> Ev.size]
        /\ map' = FrameMap(Ev)
        /\ SecNew(0..3, StoredIn(Ev))
        /\ held' = <<>>

Expected(f) ==
    [ images |-> 1, version |-> cfg.version, dims |-> <<cfg.size, cfg.size>>,
      shape |-> <<1, cfg.size, cfg.size>>, scan |-> cfg.scan,
      numbers |-> <<map[f].image>>, sectors |-> map[f].tags ]

TRead == /\ IsEvent("Read")
         /\ Ev.kind = "Block"
         /\ \E f \in DOMAIN map :
              /\ Ev.block = Expected(f)
              /\ Deliver(f)
              /\ held' = Append(held, f)
         /\ UNCHANGED <<cfg, map>>

TEnd == IsEvent("Read") /\ Ev.kind = "End" /\ End /\ UNCHANGED <<cfg, map, held>>

TReset == IsEvent("Reset") /\ Reset /\ UNCHANGED <<cfg, map, held>>

\* The ratio was multiplied by the expected number of sectors
TCaptured == /\ IsEvent("Captured") /\ Ev.sectors = Captured
             /\ UNCHANGED <<secvars, cfg, map, held>>

THeld == /\ IsEvent("Held")
         /\ Ev.sectors = [k \in 1..Len(held) |-> map[held[k]].tags]
         /\ UNCHANGED <<secvars, cfg, map, held>>

TraceNext == TNew \/ TRead \/ TEnd \/ TReset \/ TCaptured \/ THeld
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
