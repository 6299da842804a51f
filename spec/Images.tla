-------------------------------- MODULE Images --------------------------------
(***************************************************************************)
(* What is computed from the frames of a scan: STEM images, radial sums,   *)
(* averages, maxima and histograms.                                        *)
(* A frame is [pos, px]: its position, and its pixels row by row, or, for  *)
(* large ones, [pos, lin] with lin = <<a, b, m>> for the pixels            *)
(* (a * i + b) % m. Of frames with a field times there are that many (for  *)
(* radial sums). The dims are <<width, height>>. Sums may exceed the       *)
(* integers of TLC and are <<sum \div 256, sum % 256>>.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Size(dims) == dims[1] * dims[2]
Px(f, i) == IF "px" \in DOMAIN f THEN f.px[i + 1] ELSE ((f.lin[1] * i) + f.lin[2]) % f.lin[3]

Pair(s1, s0) == <<s1 + (s0 \div 256), s0 % 256>>
SumOf(f, is) ==
    LET s == FoldLeft(LAMBDA acc, i : LET v == Px(f, i)
                                      IN <<acc[1] + (v \div 256), acc[2] + (v % 256)>>,
                      <<0, 0>>, is)
    IN Pair(s[1], s[2])
AddPair(x, y) == Pair(x[1] + y[1], x[2] + y[2])
Times(f, x) == IF "times" \in DOMAIN f THEN Pair(f.times * x[1], f.times * x[2]) ELSE x

\* The default is the middle, rounded up
Center(c, dims) == [k \in 1..2 |-> IF c[k] < 0 THEN (dims[k] + 1) \div 2 ELSE c[k]]
D2(i, dims, c) == LET x == (i % dims[1]) - c[1]
                      y == (i \div dims[1]) - c[2]
                  IN (x * x) + (y * y)

\* The pixels of an annulus, as a sequence; c is a center that is not a default
Annulus(dims, inner, outer, c) ==
    SelectSeq([k \in 1..Size(dims) |-> k - 1],
              LAMBDA i : LET d == D2(i, dims, c)
                         IN \* Squares of large radii may exceed the integers of TLC
                            /\ IF inner > 40000 THEN FALSE ELSE d >= inner * inner
                            /\ IF outer > 40000 THEN TRUE ELSE d < outer * outer)

Unique(x) == Pair(0, x)
\* Possible values of a position: of one of its frames
StemValues(frames, p, mask) ==
    LET F == {k \in 1..Len(frames) : frames[k].pos = p}
    IN IF F = {} THEN {<<0, 0>>} ELSE {SumOf(frames[k], mask) : k \in F}

IsStemImage(image, frames, n, mask) ==
    /\ Len(image) = n
    /\ \A p \in 0..(n - 1) : image[p + 1] \in StemValues(frames, p, mask)

\* Sparse frames: [pos, ev], with the pixels that have an electron. All frames of
\* a position count.
IsSparseStemImage(image, frames, n, mask) ==
    LET M == ToSet(mask)
        Count(f) == Len(SelectSeq(f.ev, LAMBDA i : i \in M))
    IN /\ Len(image) = n
       /\ image = FoldLeft(LAMBDA acc, k : [acc EXCEPT ![frames[k].pos + 1] = @ + Count(frames[k])],
                           [p \in 1..n |-> 0], [k \in 1..Len(frames) |-> k])

CeilSqrt(n) == CHOOSE r \in 0..n : r * r >= n /\ (r = 0 \/ (r - 1) * (r - 1) < n)
Corners(dims) == {<<0, 0>>, <<dims[1], 0>>, <<0, dims[2]>>, dims}
Radii(dims, c) == CeilSqrt(Max({((x[1] - c[1]) * (x[1] - c[1])) + ((x[2] - c[2]) * (x[2] - c[2])) :
                                x \in Corners(dims)})) + 1

\* The pixels of each radius 0..R-1
Rings(dims, c) ==
    LET r == [k \in 1..Size(dims) |-> CeilSqrt(D2(k - 1, dims, c))]
        n == Radii(dims, c)
    IN FoldLeft(LAMBDA acc, k : [acc EXCEPT ![r[k] + 1] = Append(@, k - 1)],
                [j \in 1..n |-> <<>>], [k \in 1..Size(dims) |-> k])
\* <<radius, position, sum>> where the sum is not zero
RadialSum(frames, rings) ==
    LET at == {frames[k].pos : k \in 1..Len(frames)}
        Total(ring, p) == FoldLeft(LAMBDA acc, k : IF frames[k].pos = p
                                                   THEN AddPair(acc, Times(frames[k], SumOf(frames[k], ring)))
                                                   ELSE acc,
                                   <<0, 0>>, [k \in 1..Len(frames) |-> k])
        all == {<<j - 1, p, Total(rings[j], p)>> : j \in 1..Len(rings), p \in at}
    IN {x \in all : x[3] # <<0, 0>>}

\* image[i] is the average times 64, rounded down
IsAverage(image, frames, dims) ==
    LET n == Len(frames)
        S(i) == FoldLeft(LAMBDA acc, k : acc + Px(frames[k], i), 0, [k \in 1..n |-> k])
    IN /\ Len(image) = Size(dims)
       /\ \A i \in 1..Size(dims) : /\ image[i] * n <= 64 * S(i - 1)
                                   /\ 64 * S(i - 1) < (image[i] + 1) * n

\* Times 64; dark is the dark reference times 64, or empty
Maximum(frames, dims, dark) ==
    [i \in 1..Size(dims) |->
        (64 * Max({Px(frames[k], i - 1) : k \in 1..Len(frames)}))
        - (IF dark = <<>> THEN 0 ELSE dark[i])]

\* Values are integers; ceils are the edges rounded up, and floors the edges
\* times scale rounded down. n + 1 edges from the minimum to the maximum, at equal
\* distances (up to rounding). A bin has its lower edge, the last one both.
IsHistogram(values, n, ceils, floors, scale, freqs) ==
    LET V == ToSet(values)
        lo == Min(V)
        hi == Max(V)
    IN /\ Len(ceils) = n + 1 /\ Len(floors) = n + 1 /\ Len(freqs) = n
       /\ ceils[1] = lo /\ ceils[n + 1] = hi
       /\ \A j \in 0..n : LET d == (floors[j + 1] * n) - ((scale * lo * n) + (scale * j * (hi - lo)))
                          IN d \in (-2 * n)..n
       /\ freqs = [j \in 1..n |->
            Cardinality({k \in 1..Len(values) :
                IF j = n THEN values[k] >= ceils[n] /\ values[k] <= hi /\
                              (values[k] = hi \/ values[k] < ceils[n + 1])
                ELSE values[k] >= ceils[j] /\ values[k] < ceils[j + 1]})]
       /\ FoldLeft(LAMBDA a, x : a + x, 0, freqs) = Len(values)
=============================================================================
