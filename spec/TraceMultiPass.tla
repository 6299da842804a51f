---------------------------- MODULE TraceMultiPass ----------------------------
(***************************************************************************)
(* Traces of the multi pass reader: readAll (the blocks that the functor   *)
(* got), readFrames/loadFrames and stempy.io's read_frames, in any order.  *)
(* The result of every call is a function of the files alone (compare      *)
(* ReadAllDone, RightData and LoadDone in MultiPass).                      *)
(***************************************************************************)
EXTENDS SectorFiles, PySlice, TraceUtil, FiniteSets

VARIABLES cfg, map, delivered
vars == <<cfg, map, delivered, l>>

TraceInit == l = 1 /\ map = <<>> /\ delivered = {} /\ cfg = [version |-> 0]

TNew == /\ IsEvent("New")
        /\ cfg' = [version |-> Ev.version, scan |-> Ev.scan, size |-> Ev.size]
        /\ map' = FrameMap(Ev)
        /\ delivered' = {}

NPositions == cfg.scan[1] * cfg.scan[2]
Empty == DOMAIN map = {}

\* The frames at a position, sorted by frame number
AllAt(p) == SetToSortSeq({f \in DOMAIN map : map[f].image = p}, LAMBDA a, b : a < b)
PerScan == LET ns == {Len(AllAt(map[f].image)) : f \in DOMAIN map} IN
           CHOOSE n \in ns : \A m \in ns : m <= n

IsComplete(f) == \A s \in 1..4 : map[f].tags[s] # 0

\* The block of a frame
Right(b, f) ==
    /\ b.images = 1 /\ b.version = 5
    /\ b.dims = <<cfg.size, cfg.size>> /\ b.scan = cfg.scan
    /\ b.numbers = <<map[f].image>>
    /\ b.sectors = map[f].tags /\ b.later = map[f].tags
RightRaw(b, f) == Right(b, f) /\ b.frame = f /\ b.complete = <<IF IsComplete(f) THEN 1 ELSE 0>>

Same == UNCHANGED <<cfg, map, delivered>>

TDeliver == /\ IsEvent("Deliver")
            /\ Ev.block.frame \in DOMAIN map \ delivered
            /\ RightRaw(Ev.block, Ev.block.frame)
            /\ delivered' = delivered \cup {Ev.block.frame}
            /\ UNCHANGED <<cfg, map>>

TReadAll == /\ IsEvent("ReadAll")
            /\ Ev.kind = IF Empty THEN "Error" ELSE "Done"
            /\ delivered = DOMAIN map
            /\ delivered' = {}
            /\ UNCHANGED <<cfg, map>>

TLoad == /\ IsEvent("Load")
         /\ IF \/ Empty \/ Ev.image >= NPositions
               \/ \E k \in 1..Len(Ev.idx) : Ev.idx[k] >= Len(AllAt(Ev.image))
            THEN Ev.kind = "Error"
            ELSE /\ Ev.kind = "Blocks"
                 /\ Len(Ev.blocks) = Len(Ev.idx)
                 /\ \A k \in 1..Len(Ev.idx) :
                       RightRaw(Ev.blocks[k], AllAt(Ev.image)[Ev.idx[k] + 1])
         /\ Same

TNumFrames == /\ IsEvent("NumFrames")
              /\ IF Empty THEN Ev.kind = "Error"
                 ELSE Ev.kind = "Value" /\ Ev.n = Len(AllAt(Ev.image))
              /\ Same

TNumPerScan == /\ IsEvent("NumPerScan")
               /\ IF Empty THEN Ev.kind = "Error"
                  ELSE Ev.kind = "Value" /\ Ev.n = PerScan
               /\ Same

\* The shape has the reverse order of the dimensions
TScan == /\ IsEvent("Scan")
         /\ IF Empty THEN Ev.kind = "Error"
            ELSE Ev.kind = "Value" /\ Ev.v = (IF Ev.what = "dimensions" THEN cfg.scan
                                              ELSE <<cfg.scan[2], cfg.scan[1]>>)
         /\ Same

\* stempy.io: a position is an index or a (row, column); the frames are selected
\* like an array of num_frames_per_scan elements is indexed
ValidPos(p) ==
    IF p.kind = "int" THEN p.v >= 0 /\ p.v < NPositions
    ELSE /\ p.v[1] >= 0 /\ p.v[1] < cfg.scan[2]
         /\ p.v[2] >= 0 /\ p.v[2] < cfg.scan[1]
Image(p) == IF p.kind = "int" THEN p.v ELSE p.v[1] * cfg.scan[1] + p.v[2]

Indices(sel, at) == IF sel.kind = "all" THEN [k \in 1..Len(at) |-> k - 1]
                    ELSE SelIndices(sel, PerScan)

TReadFrames ==
    /\ IsEvent("ReadFrames")
    /\ IF \/ Empty \/ ~ValidPos(Ev.pos) \/ ~ValidSel(Ev.sel, PerScan)
       THEN Ev.kind = "Error"
       ELSE LET at == AllAt(Image(Ev.pos))
                ix == Indices(Ev.sel, at)
            IN IF \E k \in 1..Len(ix) : ix[k] >= Len(at)
               THEN Ev.kind = "Error"
               ELSE /\ Ev.kind = IF Ev.sel.kind = "int" THEN "Block" ELSE "Blocks"
                    /\ Len(Ev.blocks) = Len(ix)
                    /\ \A k \in 1..Len(ix) : /\ Right(Ev.blocks[k], at[ix[k] + 1])
                                             /\ Ev.blocks[k].shape = <<cfg.size, cfg.size>>
    /\ Same

TraceNext == TNew \/ TDeliver \/ TReadAll \/ TLoad \/ TNumFrames \/ TNumPerScan \/ TScan
             \/ TReadFrames
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
