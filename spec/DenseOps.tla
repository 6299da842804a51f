------------------------------- MODULE DenseOps -------------------------------
(***************************************************************************)
(* What a sparse array means, and the operations on it, as operations on   *)
(* the dense array that it stands for.                                     *)
(*                                                                         *)
(* An array is [scan, frame, nz]: the dimensions (one or two) of the scan  *)
(* and of the frames, and the set of the <<position, pixel, count>> that   *)
(* are not zero; the positions and the pixels are flat (row major, zero    *)
(* based). A dense result is [shape, nz], with the set of its              *)
(* <<flat index, value>> that are not zero.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, PySlice

Prod(dims) == FoldLeft(LAMBDA a, b : a * b, 1, dims)

-------------------------------------------------------------------------------
(* Slicing *)

\* The selectors of the dimensions `dims' (the missing ones select everything),
\* with numpy's semantics. mask2 is a mask over two dimensions.
PartSel(dims, sels0) ==
    LET n    == Len(dims)
        full == [kind |-> "all"]
        two  == Len(sels0) >= 1 /\ sels0[1].kind = "mask2"
        sels == [k \in 1..n |-> IF k <= Len(sels0) THEN sels0[k] ELSE full]
        Adv(s) == s.kind \in {"list", "mask"}
        bad  == [ok |-> FALSE, shape |-> <<>>, idx |-> <<>>]
    IN
    IF two THEN
        LET m == sels0[1].v IN
        IF n # 2 \/ Len(sels0) > 1 THEN bad
        ELSE IF Len(m) # dims[1] \/ \E k \in 1..Len(m) : Len(m[k]) # dims[2] THEN bad
        ELSE LET idx == MaskIndices(FlattenSeq(m))
             IN [ok |-> TRUE, shape |-> <<Len(idx)>>, idx |-> idx]
    ELSE IF Len(sels0) > n \/ \E k \in 1..n : sels[k].kind = "mask2"
                           \/ ~ValidSel(sels[k], dims[k]) THEN bad
    ELSE IF n = 1 THEN
        LET i == SelIndices(sels[1], dims[1])
        IN [ok |-> TRUE, idx |-> i,
            shape |-> IF sels[1].kind = "int" THEN <<>> ELSE <<Len(i)>>]
    ELSE
        LET a == SelIndices(sels[1], dims[1])
            b == SelIndices(sels[2], dims[2])
            At(i, j) == i * dims[2] + j
        IN
        IF Adv(sels[1]) /\ Adv(sels[2]) THEN
            \* Two lists are paired, not combined
            LET m == IF Len(a) = 1 THEN Len(b) ELSE Len(a)
            IN IF Len(a) # Len(b) /\ Len(a) # 1 /\ Len(b) # 1 THEN bad
               ELSE [ok |-> TRUE, shape |-> <<m>>,
                     idx |-> [k \in 1..m |-> At(a[IF Len(a) = 1 THEN 1 ELSE k],
                                                b[IF Len(b) = 1 THEN 1 ELSE k])]]
        ELSE [ok |-> TRUE,
              idx |-> IF Len(b) = 0 THEN <<>> ELSE
                      [k \in 1..(Len(a) * Len(b)) |->
                        At(a[(k - 1) \div Len(b) + 1], b[((k - 1) % Len(b)) + 1])],
              shape |-> (IF sels[1].kind = "int" THEN <<>> ELSE <<Len(a)>>) \o
                        (IF sels[2].kind = "int" THEN <<>> ELSE <<Len(b)>>)]

IsAdv(sels) == \E k \in 1..Len(sels) : sels[k].kind \in {"list", "mask", "mask2"}

\* Lists and masks can not be used for the scan and for the frame at once
Slice(a, ss, fs) ==
    LET s == PartSel(a.scan, ss)
        f == PartSel(a.frame, fs)
        n == Prod(f.shape)
        ps == {t[1] : t \in a.nz}
        qs == {t[2] : t \in a.nz}
        is == {i \in 1..Len(s.idx) : s.idx[i] \in ps}
        js == {j \in 1..Len(f.idx) : f.idx[j] \in qs}
        At(i, j) == {t \in a.nz : t[1] = s.idx[i] /\ t[2] = f.idx[j]}
    IN IF ~s.ok \/ ~f.ok \/ (IsAdv(ss) /\ IsAdv(fs)) THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, scan |-> s.shape, frame |-> f.shape,
             nz |-> UNION {{<<i - 1, j - 1, t[3]>> : t \in At(i, j)} : i \in is, j \in js}]

\* As a dense array
Dense(a) == [shape |-> a.scan \o a.frame,
             nz |-> {<<t[1] * Prod(a.frame) + t[2], t[3]>> : t \in a.nz}]

-------------------------------------------------------------------------------
(* Binning: the counts of bin_factor x bin_factor cells are added *)

\* The cell of a flat index
Bin(i, dims, k) ==
    IF Len(dims) = 1 THEN i \div k
    ELSE ((i \div dims[2]) \div k) * (dims[2] \div k) + (i % dims[2]) \div k

Divisible(dims, k) == \A d \in 1..Len(dims) : dims[d] % k = 0
BinDims(dims, k) == [d \in 1..Len(dims) |-> dims[d] \div k]

\* Adds up the counts with the same key
Merge(ts) == \* ts: a set of <<key1, key2, original element>>
    LET keys == {<<t[1], t[2]>> : t \in ts}
    IN {<<q[1], q[2], FoldSet(LAMBDA t, acc : acc + t[3][3], 0,
             {t \in ts : t[1] = q[1] /\ t[2] = q[2]})>> : q \in keys}

BinScans(a, k) == [scan |-> BinDims(a.scan, k), frame |-> a.frame,
                   nz |-> Merge({<<Bin(t[1], a.scan, k), t[2], t>> : t \in a.nz})]
BinFrames(a, k) == [scan |-> a.scan, frame |-> BinDims(a.frame, k),
                    nz |-> Merge({<<t[1], Bin(t[2], a.frame, k), t>> : t \in a.nz})]

-------------------------------------------------------------------------------
(* Reductions over a set of axes (1..number of dimensions) *)

Dims(a) == a.scan \o a.frame

\* The index along each axis of a flat index
Unravel(i, dims) ==
    [d \in 1..Len(dims) |-> (i \div Prod(SubSeq(dims, d + 1, Len(dims)))) % dims[d]]

\* The dimensions that remain, and where an element goes
Kept(dims, axes) == SelectSeq([d \in 1..Len(dims) |-> d], LAMBDA d : d \notin axes)
ReducedShape(dims, axes) == [k \in 1..Len(Kept(dims, axes)) |-> dims[Kept(dims, axes)[k]]]
Target(i, dims, axes) ==
    LET u == Unravel(i, dims)
        ks == Kept(dims, axes)
    IN FoldLeft(LAMBDA acc, d : acc * dims[d] + u[d], 0, ks)

\* How many elements each element of the result has
Reduced(dims, axes) == FoldSet(LAMBDA d, acc : acc * dims[d], 1, axes)

Reduce(a, what, axes) ==
    LET dims == Dims(a)
        es   == {<<Target(e[1], dims, axes), e>> : e \in Dense(a).nz}
        keys == {x[1] : x \in es}
        n    == Reduced(dims, axes)
        Of(k) == {x \in es : x[1] = k}
        Vals(k) == {x[2][2] : x \in Of(k)}
        Value(k) == CASE what \in {"sum", "mean"} -> FoldSet(LAMBDA x, acc : acc + x[2][2], 0, Of(k))
                      [] what = "max" -> Max(Vals(k))
                      \* Unless there are electrons everywhere
                      [] what = "min" -> IF Cardinality(Of(k)) = n THEN Min(Vals(k)) ELSE 0
    IN [shape |-> ReducedShape(dims, axes),
        nz |-> {<<k, Value(k)>> : k \in keys} \ {<<k, 0>> : k \in keys}]

-------------------------------------------------------------------------------
(* Reshaping: the order of the elements stays the same *)

CanReshape(a, shape) ==
    /\ Len(shape) \in {3, 4}
    /\ Prod(SubSeq(shape, 1, Len(shape) - 2)) = Prod(a.scan)
    /\ Prod(SubSeq(shape, Len(shape) - 1, Len(shape))) = Prod(a.frame)

Reshape(a, shape) == [scan |-> SubSeq(shape, 1, Len(shape) - 2),
                      frame |-> SubSeq(shape, Len(shape) - 1, Len(shape)),
                      nz |-> a.nz]

-------------------------------------------------------------------------------
(* The representation: data[position][k] is the list of the pixels with an *)
(* electron in the k-th frame of the position                              *)

Meaning(data) ==
    UNION {LET pixels == UNION {Range(data[s][k]) : k \in 1..Len(data[s])}
           IN {<<s - 1, p, Cardinality({k \in 1..Len(data[s]) : p \in Range(data[s][k])})>> :
               p \in pixels} : s \in 1..Len(data)}

\* All positions have the same number of frames, and a frame does not repeat a pixel
Represents(data, scan, frame) ==
    /\ Len(data) = Prod(scan)
    /\ \A s \in 1..Len(data) :
         /\ Len(data[s]) = Len(data[1])
         /\ \A k \in 1..Len(data[s]) :
              /\ Cardinality(Range(data[s][k])) = Len(data[s][k])
              /\ \A p \in Range(data[s][k]) : p >= 0 /\ p < Prod(frame)
=============================================================================
