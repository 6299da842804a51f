------------------------------ MODULE CountFiles ------------------------------
(***************************************************************************)
(* HDF5 files of electron counted data. A file is [version, scan, frame,   *)
(* positions, frames, meta], where the scan is <<rows, columns>>:          *)
(*  1: a frame for each position, in order; it may repeat pixels;          *)
(*  2: a frame for each of the positions, in any order, any number of each;*)
(*  3: the same number of frames for all positions, in order.              *)
(* Loading it gives [scan, frame, data] (see SparseArray).                 *)
(***************************************************************************)
EXTENDS DenseOps

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Times(row, p) == Cardinality({k \in 1..Len(row) : row[k] = p})
\* The pixels that a row has more than n times
Level(row, n) == Sorted({p \in Range(row) : Times(row, p) > n})
Repeats(row) == Cardinality(Range(row)) # Len(row)
Levels(row) == LET m == IF row = <<>> THEN 1 ELSE Max({Times(row, p) : p \in Range(row)})
               IN [n \in 1..m |-> Level(row, n - 1)]

\* The position of the k-th frame of the file
PerPosition(f) == Len(f.frames) \div Prod(f.scan)
PositionOf(f, k) == IF f.version = 3 THEN (k - 1) \div PerPosition(f) ELSE f.positions[k]

\* The frames at a position, in the order of the file
At(f, p) == SelectSeq([k \in 1..Len(f.frames) |-> k], LAMBDA k : PositionOf(f, k) = p)
FramesAt(f, p) ==
    LET ks == At(f, p)
        fs == [i \in 1..Len(ks) |-> f.frames[ks[i]]]
    IN IF f.version = 1 THEN FlattenSeq([i \in 1..Len(fs) |-> Levels(fs[i])]) ELSE fs

\* Without the last column
Kept2(f, keep) == LET n == Prod(f.scan)
                      w == f.scan[2]
                  IN SelectSeq([k \in 1..n |-> k - 1], LAMBDA p : keep \/ p % w # w - 1)

Load(f, keep) ==
    LET ps == Kept2(f, keep)
        fs == [i \in 1..Len(ps) |-> FramesAt(f, ps[i])]
        most == Max({Len(fs[i]) : i \in 1..Len(fs)})
    IN [scan |-> IF keep THEN f.scan ELSE <<f.scan[1], f.scan[2] - 1>>,
        frame |-> f.frame,
        data |-> [i \in 1..Len(fs) |->
                    [k \in 1..most |-> IF k <= Len(fs[i]) THEN fs[i][k] ELSE <<>>]]]

Encode(a, meta) ==
    [version |-> 3, scan |-> a.scan, frame |-> a.frame, meta |-> meta,
     positions |-> [k \in 1..Len(a.data) |-> k - 1],
     frames |-> FlattenSeq(a.data)]

\* Equal up to the order of the pixels in a frame
SameFrames(d, e) == /\ Len(d) = Len(e)
                    /\ \A p \in 1..Len(d) :
                         /\ Len(d[p]) = Len(e[p])
                         /\ \A k \in 1..Len(d[p]) : /\ Range(d[p][k]) = Range(e[p][k])
                                                    /\ Len(d[p][k]) = Len(e[p][k])

WellFormedFile(f) ==
    /\ f.version = 3 => Len(f.frames) % Prod(f.scan) = 0
    /\ f.version = 2 => \A k \in 1..Len(f.positions) : f.positions[k] \in 0..(Prod(f.scan) - 1)
    /\ f.version = 1 => f.positions = [k \in 1..Prod(f.scan) |-> k - 1]
    /\ f.version # 3 => Len(f.positions) = Len(f.frames)
=============================================================================
