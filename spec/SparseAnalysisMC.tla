-------------------------- MODULE SparseAnalysisMC --------------------------
(***************************************************************************)
(* All small arrays, whose electrons are processed one at a time, in any   *)
(* order, as by loops over positions or by vectorized sums over the        *)
(* concatenation of all electrons: the accumulated sums are the defined    *)
(* ones. Also laws of the definitions.                                     *)
(***************************************************************************)
EXTENDS SparseAnalysis, TLC

CONSTANTS NPositions, Shapes, MaxFrames, MaxElectrons

\* Frames have every pixel at most once, in any order
FrameOf(shape) == {<<>>} \cup {<<a>> : a \in 0..((shape[1] * shape[2]) - 1)} \cup
                  {p \in (0..((shape[1] * shape[2]) - 1)) \X (0..((shape[1] * shape[2]) - 1)) :
                     p[1] # p[2] /\ MaxElectrons > 1}
FramesOf(shape) == UNION {[1..n -> FrameOf(shape)] : n \in 1..MaxFrames}

VARIABLES shape, data, center, todo, sums, pattern, field
vars == <<shape, data, center, todo, sums, pattern, field>>

Aperture == <<2, 1, 3>>
Queue == {<<p, f, k>> \in (1..NPositions) \X (1..MaxFrames) \X (1..2) :
             f <= Len(data[p]) /\ k <= Len(data[p][f])}

Init == /\ shape \in Shapes
        /\ data \in [1..NPositions -> FramesOf(shape)]
        /\ center \in {<<0, 0>>, <<1, 2>>}
        /\ todo = Queue
        /\ sums = [p \in 1..NPositions |-> <<0, 0, 0>>]
        /\ pattern = [i \in 1..(shape[1] * shape[2]) |-> 0]
        /\ field = [p \in 1..NPositions |-> 0]
\* A fixed order that differs from that of the definitions reaches the same end
Next == /\ todo # {}
        /\ \E q \in {CHOOSE q \in todo : \A o \in todo : q[2] > o[2] \/ (q[2] = o[2] /\
                        (q[1] > o[1] \/ (q[1] = o[1] /\ q[3] >= o[3])))} \cup
                    {CHOOSE q \in todo : TRUE} :
             LET e == data[q[1]][q[2]][q[3]]
             IN /\ todo' = todo \ {q}
                /\ sums' = [sums EXCEPT ![q[1]] = <<@[1] + Col(e, shape), @[2] + Row(e, shape),
                                                    @[3] + 1>>]
                /\ pattern' = [pattern EXCEPT ![e + 1] = @ + 1]
                /\ field' = [field EXCEPT ![q[1]] = @ + (IF InAperture(e, shape, Aperture)
                                                         THEN 1 ELSE 0)]
        /\ UNCHANGED <<shape, data, center>>
Spec == Init /\ [][Next]_vars

Done == todo = {}
SumsRight == Done => \A p \in 1..NPositions : sums[p] = Com(data[p], shape, NaN, <<>>)
PatternRight == Done => pattern = Pattern(data, All(data), shape)
FieldRight == Done => field = DarkField(data, shape, <<Aperture>>)

(* Laws of the definitions, for all arrays *)
Initial == todo = Queue
\* A crop that reaches everything does nothing, one around a position is a subset
CropLaws == Initial => \A p \in 1..NPositions :
    LET es == Electrons(data[p])
    IN es # <<>> =>
         /\ Cropped(es, shape, 100, <<>>) = es
         /\ Cropped(es, shape, 100, center) = es
         /\ Len(Cropped(es, shape, 1, center)) <= Len(Cropped(es, shape, 2, center))
         /\ \A e \in ToSet(Cropped(es, shape, 0, center)) :
               2 * Row(e, shape) = center[1] /\ 2 * Col(e, shape) = center[2]
\* The sparse and dense centers of mass agree
DenseLaw == Initial => \A p \in 1..NPositions :
    DenseCom(Pattern(data, <<p>>, shape), shape) = Com(data[p], shape, NaN, <<>>)
\* The bins of all distances have all electrons
BinLaw == Initial => \A p \in 1..NPositions :
    LET es == Electrons(data[p])
    IN \A e \in ToSet(es) :
          Cardinality({j \in 0..8 : InBin(j, Distance2(e, shape, center))}) = 1
\* Patterns add up
MaskLaw == Initial => \A m \in [1..NPositions -> {0, 1}] :
    LET a == Pattern(data, Masked(m), shape)
        b == Pattern(data, Masked([p \in 1..NPositions |-> 1 - m[p]]), shape)
    IN [i \in DOMAIN a |-> a[i] + b[i]] = Pattern(data, All(data), shape)
\* Apertures add up, and a large one has everything
FieldLaw == Initial =>
    LET f == DarkField(data, shape, <<Aperture>>)
        g == DarkField(data, shape, <<<<0, 0, 1>>>>)
        both == DarkField(data, shape, <<Aperture, <<0, 0, 1>>>>)
        large == DarkField(data, shape, <<<<0, 0, 100>>>>)
    IN \A p \in 1..NPositions : /\ both[p] = f[p] + g[p]
                                /\ large[p] = Len(Electrons(data[p]))
                                /\ g[p] = Cardinality({x \in 1..Len(Electrons(data[p])) :
                                                         Electrons(data[p])[x] = 0})

(* Laws of the median filter *)
ASSUME \A v \in [1..4 -> {0, 4, 8, 100}] :
    LET c == <<[p \in 1..4 |-> p * 16], v>>
        f == Filtered(c, <<2, 2>>, 0, 50)
    IN \* Nothing is bad: nothing changes. Good values never change.
       /\ (100 \notin {v[p] : p \in 1..4}) => f = c
       /\ \A p \in 1..4 : v[p] # 100 => f[1][p] = c[1][p] /\ f[2][p] = v[p]
       \* Bad values do not survive unless there is no good one
       /\ (\E p \in 1..4 : v[p] # 100) => \A p \in 1..4 : f[2][p] \in 0..8
       /\ (\A p \in 1..4 : v[p] = 100) => \A p \in 1..4 : f[2][p] = Nothing
ASSUME Around(1, <<3, 4>>) = <<1, 2, 5, 6>> /\ Around(6, <<3, 4>>) = <<1, 2, 3, 5, 6, 7, 9, 10, 11>>
ASSUME Median(<<3, 1, 2>>) = 2 /\ Median(<<8, 2>>) = 5 /\ Median(<<>>) = Nothing

ShapesQuick == {<<2, 2>>, <<1, 3>>}
ShapesThorough == {<<2, 2>>, <<1, 3>>, <<3, 1>>, <<2, 3>>}
=============================================================================
