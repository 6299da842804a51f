--------------------------- MODULE SparseAnalysis ---------------------------
(***************************************************************************)
(* What is computed from counted data: centers of mass, virtual dark       *)
(* fields, radial sums, diffraction patterns.                              *)
(* data[p] are the frames of position p, sequences of pixels of a frame of *)
(* the given shape <<rows, columns>>. Centers and radii are doubled, so    *)
(* they may be halves, and fractions are times Unit.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Unit == 1024
NaN == -1

Row(e, shape) == e \div shape[2]
Col(e, shape) == e % shape[2]

RECURSIVE Joined(_, _)
Joined(frames, k) == IF k > Len(frames) THEN <<>> ELSE frames[k] \o Joined(frames, k + 1)
\* The electrons of all frames of a position
Electrons(frames) == Joined(frames, 1)

SumBy(F(_), s) == FoldLeft(LAMBDA a, e : a + F(e), 0, s)
Rows(es, shape) == SumBy(LAMBDA e : Row(e, shape), es)
Cols(es, shape) == SumBy(LAMBDA e : Col(e, shape), es)

\* The electrons within the radius crop of the center: the one that is given
\* (doubled, too), or their own center of mass
Cropped(es, shape, crop, center) ==
    LET n == Len(es)
        sr == Rows(es, shape)
        sc == Cols(es, shape)
        In(e) == IF center # <<>>
                 THEN LET y == (2 * Row(e, shape)) - center[1]
                          x == (2 * Col(e, shape)) - center[2]
                      IN (y * y) + (x * x) <= crop * crop
                 ELSE LET y == 2 * ((n * Row(e, shape)) - sr)
                          x == 2 * ((n * Col(e, shape)) - sc)
                      IN (y * y) + (x * x) <= (crop * n) * (crop * n)
    IN SelectSeq(es, In)

\* <<sum of columns, sum of rows, number>> of the electrons that count; crop is
\* NaN for all of them
Com(frames, shape, crop, center) ==
    LET es == Electrons(frames)
        k == IF crop = NaN \/ es = <<>> THEN es ELSE Cropped(es, shape, crop, center)
    IN <<Cols(k, shape), Rows(k, shape), Len(k)>>

\* v is within rounding of s / n, in units
IsQuotient(v, s, n) == /\ v * n <= (Unit * s) + n
                       /\ (v + 2) * n > Unit * s

\* The image v[c][p] of both components (columns first) of all positions
IsCom(v, coms, replace) ==
    LET N == Len(coms)
        at == SelectSeq([p \in 1..N |-> p], LAMBDA p : coms[p][3] > 0)
        Mean(c) == (SumBy(LAMBDA p : (Unit * coms[p][c]) \div coms[p][3], at)) \div Len(at)
    IN /\ Len(v) = 2
       /\ \A c \in 1..2 :
            /\ Len(v[c]) = N
            /\ \A p \in 1..N :
                 IF coms[p][3] > 0 THEN IsQuotient(v[c][p], coms[p][c], coms[p][3])
                 ELSE IF replace /\ at # <<>> THEN v[c][p] - Mean(c) \in -3..3
                 ELSE v[c][p] = NaN

\* Apertures <<column, row, radius>>, all doubled
InAperture(e, shape, a) == LET x == (2 * Col(e, shape)) - a[1]
                               y == (2 * Row(e, shape)) - a[2]
                           IN a[3] > 0 /\ (x * x) + (y * y) < a[3] * a[3]
DarkField(data, shape, apertures) ==
    [p \in 1..Len(data) |->
        SumBy(LAMBDA e : Cardinality({k \in 1..Len(apertures) : InAperture(e, shape, apertures[k])}),
              Electrons(data[p]))]

\* center <<row, column>>, doubled. Bin j is for distances in [j, j + 1).
Bins(shape) == Max({shape[1], shape[2]}) \div 2
Distance2(e, shape, center) ==
    LET y == (2 * Row(e, shape)) - center[1]
        x == (2 * Col(e, shape)) - center[2]
    IN (y * y) + (x * x)
InBin(j, d2) == 4 * j * j <= d2 /\ d2 < 4 * (j + 1) * (j + 1)
\* The upper edge of the last bin may be a part of it
IsRadialSum(bins, frames, shape, center) ==
    LET n == Bins(shape)
        ds == [k \in 1..Len(Electrons(frames)) |-> Distance2(Electrons(frames)[k], shape, center)]
        Count(T(_)) == Len(SelectSeq(ds, T))
        edge == Count(LAMBDA d : d = 4 * n * n)
    IN /\ Len(bins) = n
       /\ \A j \in 0..(n - 1) :
            LET m == Count(LAMBDA d : InBin(j, d))
            IN bins[j + 1] = m \/ (j = n - 1 /\ bins[j + 1] = m + edge)

\* The diffraction pattern of the positions of a sequence
Pattern(data, ps, shape) ==
    LET size == shape[1] * shape[2]
        Add(d, es) == FoldLeft(LAMBDA a, e : [a EXCEPT ![e + 1] = @ + 1], d, es)
    IN FoldLeft(LAMBDA d, p : Add(d, Electrons(data[p])), [i \in 1..size |-> 0], ps)
All(data) == [p \in 1..Len(data) |-> p]
Masked(mask) == SelectSeq([p \in 1..Len(mask) |-> p], LAMBDA p : mask[p] # 0)

\* The center of mass of a dense frame: <<columns, rows, mass>>
DenseCom(px, shape) ==
    LET is == [k \in 1..Len(px) |-> k]
    IN <<SumBy(LAMBDA k : px[k] * Col(k - 1, shape), is),
         SumBy(LAMBDA k : px[k] * Row(k - 1, shape), is),
         SumBy(LAMBDA k : px[k], is)>>

\* Bad positions get the median of those around that are known, one after the
\* other. Values are numbers; Nothing is a value that is not known.
Nothing == -1000000000
Median(s) ==
    LET n == Len(s)
        t == SortSeq(s, LAMBDA x, y : x < y)
    IN IF n = 0 THEN Nothing
       ELSE IF n % 2 = 1 THEN t[(n + 1) \div 2]
       ELSE (t[n \div 2] + t[(n \div 2) + 1]) \div 2
Around(p, scan) ==
    LET r == (p - 1) \div scan[2]
        c == (p - 1) % scan[2]
    IN SelectSeq([k \in 1..(scan[1] * scan[2]) |-> k],
                 LAMBDA k : /\ ((k - 1) \div scan[2]) - r \in -1..1
                            /\ ((k - 1) % scan[2]) - c \in -1..1)
Filtered(com, scan, low, high) ==
    LET N == scan[1] * scan[2]
        Bad(p) == com[2][p] # Nothing /\ (com[2][p] < low \/ com[2][p] > high)
        Fix(v) == FoldLeft(LAMBDA a, p :
                     IF Bad(p)
                     THEN [a EXCEPT ![p] =
                            Median(SelectSeq([k \in 1..Len(Around(p, scan)) |->
                                                a[Around(p, scan)[k]]],
                                             LAMBDA x : x # Nothing))]
                     ELSE a,
                     [p \in 1..N |-> IF Bad(p) THEN Nothing ELSE v[p]],
                     [p \in 1..N |-> p])
    IN <<Fix(com[1]), Fix(com[2])>>
=============================================================================
