----------------------------- MODULE SparseArray -----------------------------
(***************************************************************************)
(* The sparse algorithms of stempy.io.SparseArray: they never build the    *)
(* dense array, but their results have to stand for what the operations    *)
(* of DenseOps do with it. A state is one array, data[position][frame] the *)
(* list of its pixels; every operation is applied in place.                *)
(***************************************************************************)
EXTENDS DenseOps

CONSTANTS Scans, Frames,    \* the dimensions to start from
          MaxFrames,        \* frames per position
          MaxOps,           \* operations in a row
          Selectors,        \* for one dimension
          Factors           \* for binning

VARIABLES scan, frame, data,
          abs,     \* the array that it has to stand for (DenseOps)
          ops, red

vars == <<scan, frame, data, abs, ops, red>>

FrameLists(n) == {SetToSortSeq(s, LAMBDA a, b : a < b) : s \in SUBSET (0..(n - 1))}

Init ==
    /\ scan \in Scans /\ frame \in Frames
    /\ \E n \in 1..MaxFrames :
         data \in [1..Prod(scan) -> [1..n -> FrameLists(Prod(frame))]]
    /\ abs = [scan |-> scan, frame |-> frame, nz |-> Meaning(data)]
    /\ ops = 0 /\ red = <<>>

Index(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x

\* The map from an old pixel to its (last) place in the selection, or -1
FrameMap(idx) == [p \in 0..(Prod(frame) - 1) |->
    LET ks == {k \in 1..Len(idx) : idx[k] = p} IN IF ks = {} THEN -1 ELSE Max(ks) - 1]

MapFrame(f, idx) ==
    LET m == FrameMap(idx)
        repeated == \E k \in 1..Len(idx) : m[idx[k]] # k - 1
    IN IF repeated
       THEN SelectSeq([k \in 1..Len(idx) |-> k - 1], LAMBDA k : idx[k + 1] \in Range(f))
       ELSE SelectSeq([k \in 1..Len(f) |-> m[f[k]]], LAMBDA x : x >= 0)

DoSlice(ss, fs) ==
    LET s == PartSel(scan, ss)
        f == PartSel(frame, fs)
    IN /\ s.ok /\ f.ok /\ s.shape # <<>> /\ f.shape # <<>> /\ ~(IsAdv(ss) /\ IsAdv(fs))
       /\ scan' = s.shape /\ frame' = f.shape
       /\ data' = [i \in 1..Len(s.idx) |->
                     [k \in 1..Len(data[1]) |-> MapFrame(data[s.idx[i] + 1][k], f.idx)]]
       /\ abs' = LET r == Slice(abs, ss, fs)
                 IN [scan |-> r.scan, frame |-> r.frame, nz |-> r.nz]

\* The frames of the positions are put together
DoBinScans(k) ==
    /\ Divisible(scan, k)
    /\ scan' = BinDims(scan, k)
    /\ data' = [c \in 1..Prod(BinDims(scan, k)) |->
         LET from == SelectSeq([i \in 1..Prod(scan) |-> i], LAMBDA i : Bin(i - 1, scan, k) = c - 1)
         IN FlattenSeq([i \in 1..Len(from) |-> data[from[i]]])]
    /\ abs' = BinScans(abs, k)
    /\ UNCHANGED frame

\* A pixel that is repeated in a frame goes to an extra frame of its position; every
\* position has as many frames as the one that needs the most
DoBinFrames(k) ==
    LET Binned(f) == [i \in 1..Len(f) |-> Bin(f[i], frame, k)]
        Count(g, p) == Cardinality({i \in 1..Len(g) : g[i] = p})
        Sorted(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
        \* The pixels with more than n electrons
        Level(g, n) == Sorted({p \in Range(g) : Count(g, p) > n})
        MaxCount(g) == IF g = <<>> THEN 0 ELSE Max({Count(g, p) : p \in Range(g)})
        Extra(g) == [n \in 1..(IF MaxCount(g) = 0 THEN 0 ELSE MaxCount(g) - 1) |-> Level(g, n)]
        Of(s) == LET gs == [i \in 1..Len(data[s]) |-> Binned(data[s][i])]
                 IN [i \in 1..Len(gs) |-> Level(gs[i], 0)] \o
                    FlattenSeq([i \in 1..Len(gs) |-> Extra(gs[i])])
        most == Max({Len(Of(s)) : s \in 1..Len(data)})
    IN /\ Divisible(frame, k)
       /\ frame' = BinDims(frame, k)
       /\ data' = [s \in 1..Len(data) |->
            [i \in 1..most |-> IF i <= Len(Of(s)) THEN Of(s)[i] ELSE <<>>]]
       /\ abs' = BinFrames(abs, k)
       /\ UNCHANGED scan

\* The reductions over the axes of the scan or of the frames use the lists; the
\* result of the last one is compared to that of the dense array
Unique(s) == UNION {Range(data[s][k]) : k \in 1..Len(data[s])}
CountAt(s, p) == Cardinality({k \in 1..Len(data[s]) : p \in Range(data[s][k])})
MaxOr0(S) == IF S = {} THEN 0 ELSE Max(S)
NonZero(n, F(_)) == {<<i, F(i)>> : i \in 0..(n - 1)} \ {<<i, 0>> : i \in 0..(n - 1)}

DoReduce(what, part) ==
    LET S == 1..Len(data)
        OverScan(p) ==
            CASE what = "sum" -> FoldSet(LAMBDA s, a : a + CountAt(s, p), 0, S)
              [] what = "max" -> Max({CountAt(s, p) : s \in S})
              [] what = "min" -> Min({CountAt(s, p) : s \in S})
        OverFrame(i) ==
            CASE what = "sum" -> FoldLeft(LAMBDA a, f : a + Len(f), 0, data[i + 1])
              [] what = "max" -> MaxOr0({CountAt(i + 1, p) : p \in Unique(i + 1)})
              [] what = "min" -> IF Cardinality(Unique(i + 1)) < Prod(frame) THEN 0
                                 ELSE Min({CountAt(i + 1, p) : p \in Unique(i + 1)})
        scanAxes == 1..Len(scan)
        frameAxes == (Len(scan) + 1)..(Len(scan) + Len(frame))
    IN /\ data # <<>> /\ Prod(frame) > 0
       /\ red' = IF part = "scan"
                 THEN <<[shape |-> frame, nz |-> NonZero(Prod(frame), OverScan)],
                        Reduce(abs, what, scanAxes)>>
                 ELSE <<[shape |-> scan, nz |-> NonZero(Len(data), OverFrame)],
                        Reduce(abs, what, frameAxes)>>
       /\ UNCHANGED <<scan, frame, data, abs>>

Op(A) == ops < MaxOps /\ A /\ ops' = ops + 1
NoRed(A) == A /\ red' = <<>>

Sels(dims) == IF Len(dims) = 1 THEN [1..1 -> Selectors] ELSE [1..2 -> Selectors]

Next ==
    \/ Op(NoRed(\E ss \in Sels(scan), fs \in Sels(frame) : DoSlice(ss, fs)))
    \/ Op(NoRed(\E k \in Factors : DoBinScans(k)))
    \/ Op(NoRed(Len(frame) = 2 /\ data # <<>> /\ \E k \in Factors : DoBinFrames(k)))
    \/ Op(\E w \in {"sum", "max", "min"}, p \in {"scan", "frame"} : DoReduce(w, p))

Spec == Init /\ [][Next]_vars

\* The refinement
Faithful == /\ abs.scan = scan /\ abs.frame = frame
            /\ abs.nz = Meaning(data)
WellFormed == Represents(data, scan, frame)
RightReduction == red # <<>> => red[1] = red[2]
=============================================================================
