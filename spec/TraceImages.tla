----------------------------- MODULE TraceImages -----------------------------
(***************************************************************************)
(* Traces of the functions that compute images from a source of frames: a  *)
(* reader (which the functions exhaust), an array, a file or sparse data.  *)
(* An event that can fail has out.kind "Value" or "Error".                 *)
(***************************************************************************)
EXTENDS Images, TraceUtil

VARIABLES src, \* [kind, dims, scan, frames, blocks]
          at   \* the number of blocks that were delivered, -1: not known
vars == <<src, at, l>>

Nothing == [kind |-> "none", dims |-> <<0, 0>>, scan |-> <<0, 0>>, frames |-> <<>>, blocks |-> <<>>]
TraceInit == src = Nothing /\ at = 0 /\ l = 1

Readers == {"v1", "v3", "py", "sector"}
Sparse == {"sparsearray", "counted", "tuple", "sparse"}

Source == [kind |-> Ev.kind, dims |-> Ev.dims, scan |-> Ev.scan, frames |-> Ev.frames,
           blocks |-> Ev.blocks]
TNew == IsEvent("New") /\ src' = Nothing /\ at' = 0
TSource == IsEvent("Source") /\ src' = Source /\ at' = 0

TRead == /\ IsEvent("Read")
         /\ at >= 0 /\ at < Len(src.blocks) /\ Ev.images = src.blocks[at + 1]
         /\ at' = at + 1 /\ UNCHANGED src
TReset == IsEvent("Reset") /\ at' = 0 /\ UNCHANGED src

Upto(k) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(src.blocks, 1, k))
Rest == IF src.kind \in Readers THEN SubSeq(src.frames, Upto(at) + 1, Len(src.frames))
        ELSE src.frames

\* What a function does to the reader
Exhaust == at' = (IF src.kind \in Readers THEN Len(src.blocks) ELSE at) /\ UNCHANGED src
Fail == Ev.out.kind = "Error" /\ at' = (IF src.kind \in Readers THEN -1 ELSE at) /\ UNCHANGED src
NoBlocks == src.kind \in Readers /\ at = Len(src.blocks)
Known == at >= 0

Given(x) == x[1] > 0 /\ x[2] > 0
\* The dimensions that are used
Scan == IF src.kind \in {"sparsearray", "counted", "tuple"} THEN src.scan
        ELSE IF Given(Ev.scan) THEN Ev.scan
        ELSE IF src.kind \in {"array", "sparse"} THEN <<0, 0>> ELSE src.scan

BadRadii == Ev.inner = <<>> \/ Len(Ev.inner) # Len(Ev.outer)
Cannot == NoBlocks \/ ~Given(Scan)

MasksOf(e, dims) == LET c == Center(e.center, dims)
                    IN [k \in 1..Len(e.inner) |-> Annulus(dims, e.inner[k], e.outer[k], c)]

TStem ==
    /\ IsEvent("Stem") /\ Known
    /\ IF Cannot \/ BadRadii THEN Fail
       ELSE /\ Ev.out.kind = "Value" /\ Ev.out.dtype = "uint64"
            /\ Ev.out.shape = <<Len(Ev.inner), Scan[2], Scan[1]>>
            /\ \E masks \in {MasksOf(Ev, src.dims)}, fs \in {Rest} :
                 \A k \in 1..Len(Ev.inner) :
                    IF src.kind \in Sparse
                    THEN IsSparseStemImage(Ev.out.images[k], fs, Size(Scan), masks[k])
                    ELSE IsStemImage(Ev.out.images[k], fs, Size(Scan), masks[k])
            /\ Exhaust

TRadialSum ==
    /\ IsEvent("RadialSum") /\ Known
    /\ IF Cannot THEN Fail
       ELSE /\ Ev.out.kind = "Value" /\ Ev.out.dtype = "uint64"
            /\ \E rings \in {Rings(src.dims, Center(Ev.center, src.dims))} :
                 /\ Ev.out.shape = <<Len(rings), Scan[2], Scan[1]>>
                 /\ ToSet(Ev.out.nz) = RadialSum(Rest, rings)
            /\ Exhaust

TAverage ==
    /\ IsEvent("Average") /\ Known /\ ~NoBlocks
    /\ Ev.out.kind = "Value"
    /\ Ev.out.shape = <<src.dims[2], src.dims[1]>>
    /\ \E fs \in {Rest} : IsAverage(Ev.out.image, fs, src.dims)
    /\ Exhaust

\* shape: of the dark reference
TMaximum ==
    /\ IsEvent("Maximum") /\ Known /\ ~NoBlocks
    /\ IF Ev.shape \notin {<<>>, <<src.dims[2], src.dims[1]>>} THEN Fail
       ELSE /\ Ev.out.kind = "Value"
            /\ Ev.out.shape = <<src.dims[2], src.dims[1]>>
            /\ \E fs \in {Rest} : Ev.out.image = Maximum(fs, src.dims, Ev.dark)
            /\ Exhaust

Num(p) == (p[1] * 256) + p[2]
THistogram ==
    /\ IsEvent("Histogram") /\ Known
    /\ IF Cannot \/ BadRadii THEN Fail
       ELSE /\ Ev.out.kind = "Value"
            /\ Ev.out.scale > 0 /\ Len(Ev.out.freqs) = Len(Ev.inner)
            /\ \E masks \in {MasksOf(Ev, src.dims)}, fs \in {Rest} :
                 \A k \in 1..Len(Ev.inner) :
                   \E v \in {[p \in 1..Size(Scan) |->
                                Num(CHOOSE x \in StemValues(fs, p - 1, masks[k]) : TRUE)]} :
                     IsHistogram(v, Ev.bins, Ev.out.ceils[k], Ev.out.floors[k],
                                 Ev.out.scale, Ev.out.freqs[k])
            /\ Exhaust

TraceNext == TNew \/ TSource \/ TRead \/ TReset \/ TStem \/ TRadialSum \/ TAverage \/ TMaximum
             \/ THistogram
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
