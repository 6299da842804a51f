------------------------------- MODULE ImagesMC -------------------------------
(***************************************************************************)
(* How the images are computed: the main thread reads the blocks and makes *)
(* a task for each block and mask (or for each block for the radial sum);  *)
(* two workers take them in order and process their frames one by one,     *)
(* which is not atomic for the tasks. The main thread waits for all tasks  *)
(* and frees the masks. Also laws of the functions of Images.              *)
(***************************************************************************)
EXTENDS Images, TLC
CONSTANTS NPositions, Layouts, NMasks, Workers

VARIABLES blocks, kind, read, queue, work, stem, radial, waiting, done, freed
vars == <<blocks, kind, read, queue, work, stem, radial, waiting, done, freed>>

Dims == <<2, 2>>
Idle == [idle |-> TRUE]
C == <<0, 0>>
Masks == <<Annulus(Dims, 0, 1, C), Annulus(Dims, 1, 2, C)>>
RingSeq == Rings(Dims, C)
\* Frame k: pixels that tell the frames apart
FrameAt(k, p) == [pos |-> p, px |-> <<k, 16 * k, 64 * k, 0>>]
All == FlattenSeq(blocks)
Tasks == IF kind = "stem" THEN {<<b, m>> : b \in 1..Len(blocks), m \in 1..NMasks}
         ELSE {<<b, 0>> : b \in 1..Len(blocks)}

Total(lay) == FoldLeft(LAMBDA a, x : a + x, 0, lay)
Init == /\ kind \in {"stem", "radial"}
        /\ \E lay \in Layouts : \E ps \in [1..Total(lay) -> 0..(NPositions - 1)] :
             blocks = [b \in 1..Len(lay) |->
                         [i \in 1..lay[b] |->
                            LET k == Total(SubSeq(lay, 1, b - 1)) + i IN FrameAt(k, ps[k])]]
        /\ read = 0 /\ queue = <<>> /\ work = [w \in Workers |-> Idle]
        /\ stem = [m \in 1..NMasks |-> [p \in 1..NPositions |-> <<0, 0>>]]
        /\ radial = [r \in 1..Len(RingSeq) |-> [p \in 1..NPositions |-> <<0, 0>>]]
        /\ waiting = FALSE /\ done = {} /\ freed = FALSE

Read == /\ ~waiting /\ read < Len(blocks)
        /\ read' = read + 1
        /\ queue' = queue \o (IF kind = "stem" THEN [m \in 1..NMasks |-> <<read + 1, m>>]
                              ELSE <<<<read + 1, 0>>>>)
        /\ UNCHANGED <<blocks, kind, work, stem, radial, waiting, done, freed>>
Wait == /\ ~waiting /\ read = Len(blocks) /\ waiting' = TRUE
        /\ UNCHANGED <<blocks, kind, read, queue, work, stem, radial, done, freed>>
Take(w) == /\ work[w] = Idle /\ queue # <<>>
           /\ work' = [work EXCEPT ![w] = [task |-> Head(queue), i |-> 1]]
           /\ queue' = Tail(queue)
           /\ UNCHANGED <<blocks, kind, read, stem, radial, waiting, done, freed>>
Step(w) ==
    /\ work[w] # Idle
    /\ LET t == work[w].task
           b == blocks[t[1]]
           f == b[work[w].i]
       IN /\ IF kind = "stem"
             THEN /\ stem' = [stem EXCEPT ![t[2]][f.pos + 1] = SumOf(f, Masks[t[2]])]
                  /\ UNCHANGED radial
             ELSE \* The additions are atomic
                  /\ radial' = [r \in DOMAIN radial |->
                                  [radial[r] EXCEPT ![f.pos + 1] = AddPair(@, SumOf(f, RingSeq[r]))]]
                  /\ UNCHANGED stem
          /\ IF work[w].i = Len(b)
             THEN work' = [work EXCEPT ![w] = Idle] /\ done' = done \cup {t}
             ELSE work' = [work EXCEPT ![w].i = @ + 1] /\ UNCHANGED done
    /\ UNCHANGED <<blocks, kind, read, queue, waiting, freed>>
Free == /\ waiting /\ ~freed /\ done = Tasks /\ freed' = TRUE
        /\ UNCHANGED <<blocks, kind, read, queue, work, stem, radial, waiting, done>>

Next == Read \/ Wait \/ Free \/ \E w \in Workers : Take(w) \/ Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* No task runs after the masks were freed
Safe == freed => queue = <<>> /\ \A w \in Workers : work[w] = Idle
Result == freed =>
    IF kind = "stem" THEN \A m \in 1..NMasks : IsStemImage(stem[m], All, NPositions, Masks[m])
    ELSE {x \in {<<r - 1, p - 1, radial[r][p]>> : r \in 1..Len(RingSeq), p \in 1..NPositions} :
             x[3] # <<0, 0>>} = RadialSum(All, RingSeq)
Ends == <>freed

\* Laws. The annuli of increasing radii partition the pixels; the rings do, too, and
\* the radius of a pixel tells in which discs it is.
Small == {<<w, h>> : w \in 1..4, h \in 1..4}
ASSUME \A d \in Small : \A c \in {<<x, y>> : x \in -1..4, y \in -1..4} :
    LET e == Center(c, d)
        A(i, o) == ToSet(Annulus(d, i, o, e))
        rings == Rings(d, e)
    IN /\ \A a, b \in 0..4 : /\ (a >= b => A(a, b) = {})
                             /\ (a <= b => A(0, a) \cap A(a, b) = {} /\ A(0, a) \cup A(a, b) = A(0, b))
       /\ A(0, 9) = 0..(Size(d) - 1)
       /\ \A i \in 0..(Size(d) - 1) : \E j \in 1..Len(rings) : i \in ToSet(rings[j])
       /\ FoldLeft(LAMBDA a, x : a + Len(x), 0, rings) = Size(d)
       /\ \A r \in 1..Len(rings) : \A i \in ToSet(rings[r]) : D2(i, d, e) <= (r - 1) * (r - 1)
       /\ \A r \in 1..(Len(rings) - 1) : A(r - 1, r) \subseteq ToSet(rings[r]) \cup ToSet(rings[r + 1])
       \* Moving the center moves the mask
       /\ c[1] >= 0 /\ c[2] >= 0 =>
            \A i \in A(0, 2) : \A x \in 0..(d[1] - 1), y \in 0..(d[2] - 1) :
                (i % d[1]) + x < d[1] /\ (i \div d[1]) + y < d[2] =>
                    (i + x + (y * d[1])) \in
                        ToSet(Annulus(d, 0, 2, <<e[1] + x, e[2] + y>>))

\* Histograms of small images
ASSUME \A n \in 1..4 : \A m \in 1..3 : \A v \in [1..m -> {0, 1, 3, 6}] :
    LET lo == Min(ToSet(v))
        hi == Max(ToSet(v))
        C16(j) == (16 * lo) + ((16 * j * (hi - lo)) \div n)
        Ceil(j) == -((-((lo * n) + (j * (hi - lo)))) \div n)
        ceils == [j \in 1..(n + 1) |-> Ceil(j - 1)]
        Bin(x) == IF x = hi THEN n ELSE Max({j \in 1..n : ceils[j] <= x})
    IN IsHistogram(v, n, ceils, [j \in 1..(n + 1) |-> C16(j - 1)], 16,
                   [j \in 1..n |-> Cardinality({k \in 1..m : Bin(v[k]) = j})])

LayoutsQuick == {<<1, 1>>, <<2, 1>>, <<1, 1, 1>>}
LayoutsThorough == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<1, 1, 1>>, <<2, 2>>, <<3, 1>>, <<1, 1, 2>>}
=============================================================================
