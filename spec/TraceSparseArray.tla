--------------------------- MODULE TraceSparseArray ---------------------------
(***************************************************************************)
(* Traces of stempy.io.SparseArray: any number of arrays, which stand for  *)
(* the dense arrays in `arrs` (see DenseOps). Every operation is observed  *)
(* completely; Observe events show that the other arrays have not changed. *)
(***************************************************************************)
EXTENDS DenseOps, TraceUtil

VARIABLE arrs
vars == <<arrs, l>>

TraceInit == arrs = <<>> /\ l = 1

\* All that there is to see of an array
Shows(o, a) ==
    /\ o.scan = a.scan /\ o.frame = a.frame
    /\ o.shape = a.scan \o a.frame /\ o.ndim = Len(o.shape)
    /\ o.positions = Prod(a.scan)
    /\ Represents(o.data, a.scan, a.frame)
    /\ Meaning(o.data) = a.nz
    /\ (o.data # <<>> => o.frames = Len(o.data[1]))
    \* to_dense
    /\ o.dense.shape = o.shape /\ o.dense.dtype = a.dtype
    /\ ToSet(o.dense.nz) = Dense(a).nz

\* The rest of the state of an array
Options(a) == [sparse |-> a.sparse, allow |-> a.allow, dtype |-> a.dtype]
With(r, a) == [scan |-> r.scan, frame |-> r.frame, nz |-> r.nz, sparse |-> a.sparse,
               allow |-> a.allow, dtype |-> a.dtype]

Add(r, a) == /\ arrs' = Append(arrs, With(r, a))
             /\ Ev.out.kind = "Sparse"
             /\ Ev.out.options = Options(a)
             /\ Shows(Ev.out.array, With(r, a))
Change(r) == /\ arrs' = [arrs EXCEPT ![Ev.h] = With(r, arrs[Ev.h])]
             /\ Ev.out.kind = "Self"
             /\ Shows(Ev.out.array, With(r, arrs[Ev.h]))
Fail == Ev.out.kind = "Error" /\ UNCHANGED arrs
Denied == Fail /\ Ev.out.exception = "FullExpansionDenied"

TNew == /\ IsEvent("New")
        /\ arrs' = <<>>

TArray ==
    /\ IsEvent("Array")
    /\ LET a == [scan |-> Ev.scan, frame |-> Ev.frame, nz |-> Meaning(Ev.data),
                 sparse |-> Ev.sparse, allow |-> Ev.allow, dtype |-> Ev.dtype]
       IN /\ arrs' = Append(arrs, a)
          /\ Shows(Ev.array, a)

TObserve == /\ IsEvent("Observe")
            /\ Len(Ev.arrays) = Len(arrs)
            /\ \A h \in 1..Len(arrs) : Shows(Ev.arrays[h], arrs[h])
            /\ UNCHANGED arrs

TSet == /\ IsEvent("Set")
        /\ arrs' = [arrs EXCEPT ![Ev.h].sparse = Ev.sparse, ![Ev.h].allow = Ev.allow]

\* The user changes the pixels of one array: no other array changes
TPoke == /\ IsEvent("Poke")
         /\ arrs' = [arrs EXCEPT ![Ev.h].nz = Meaning(Ev.data)]

TSlice ==
    /\ IsEvent("Slice")
    /\ LET a == arrs[Ev.h]
           r == Slice(a, Ev.ss, Ev.fs)
       IN IF ~r.ok THEN Fail
          ELSE LET d == Dense(r) IN
               IF ~a.sparse /\ ~a.allow /\ d.shape = a.scan \o a.frame THEN Denied
               ELSE IF a.sparse /\ r.scan # <<>> /\ r.frame # <<>> THEN Add(r, a)
               ELSE /\ Ev.out.kind = "Dense"
                    /\ Ev.out.shape = d.shape
                    /\ Ev.out.dtype = a.dtype
                    /\ ToSet(Ev.out.nz) = d.nz
                    /\ UNCHANGED arrs

TBin ==
    /\ IsEvent("Bin")
    /\ LET a == arrs[Ev.h]
           dims == IF Ev.what = "scans" THEN a.scan ELSE a.frame
           r == IF Ev.what = "scans" THEN BinScans(a, Ev.factor) ELSE BinFrames(a, Ev.factor)
       IN IF ~Divisible(dims, Ev.factor) THEN Fail
          ELSE IF Ev.inplace THEN Change(r) ELSE Add(r, a)

TReshape ==
    /\ IsEvent("Reshape")
    /\ LET a == arrs[Ev.h]
       IN IF ~CanReshape(a, Ev.shape) THEN Fail ELSE Change(Reshape(a, Ev.shape))

TRavel ==
    /\ IsEvent("Ravel")
    /\ LET a == arrs[Ev.h]
       IN Change(Reshape(a, <<Prod(a.scan)>> \o a.frame))

\* The axes are "scan", "frame", "all" or some (zero based, negative ones count
\* from the end)
AxesOf(a, x) ==
    LET n == Len(Dims(a)) IN
    CASE x.kind = "scan"  -> 1..Len(a.scan)
      [] x.kind = "frame" -> (Len(a.scan) + 1)..n
      [] x.kind = "all"   -> 1..n
      [] OTHER            -> {Wrap(x.v[k], n) + 1 : k \in 1..Len(x.v)}
ValidAxes(a, x) == x.kind = "some" =>
    \A k \in 1..Len(x.v) : InBounds(x.v[k], Len(Dims(a)))

Negative(x) == x.kind = "some" /\ \E k \in 1..Len(x.v) : x.v[k] < 0

\* The values of a mean are in thousandths
SameMean(out, r, n) ==
    LET got == ToSet(out.nz) IN
    /\ {x[1] : x \in got} = {x[1] : x \in r.nz}
    /\ Cardinality(got) = Cardinality(r.nz)
    /\ \A x \in r.nz : \E y \in got :
          y[1] = x[1] /\ y[2] * n - x[2] * 1000 <= n /\ x[2] * 1000 - y[2] * n <= n

TReduce ==
    /\ IsEvent("Reduce")
    /\ LET a == arrs[Ev.h] IN
       IF ~ValidAxes(a, Ev.axis) THEN Fail
       ELSE LET axes == AxesOf(a, Ev.axis)
                sa == 1..Len(a.scan)
                fa == (Len(a.scan) + 1)..Len(Dims(a))
                special == axes \in {sa, fa}
                r == Reduce(a, Ev.what, axes)
            IN IF ~special /\ ~a.allow THEN Denied
               ELSE /\ Ev.out.kind = "Dense"
                    /\ Ev.out.shape = r.shape
                    /\ (special /\ ~Negative(Ev.axis) => Ev.out.dtype = IF Ev.dtype # "" THEN Ev.dtype
                                                  ELSE IF Ev.what = "mean" THEN "float32"
                                                  ELSE a.dtype)
                    /\ IF Ev.what = "mean" THEN SameMean(Ev.out, r, Reduced(Dims(a), axes))
                       ELSE ToSet(Ev.out.nz) = r.nz
                    /\ UNCHANGED arrs

TraceNext == TNew \/ TArray \/ TObserve \/ TSet \/ TPoke \/ TSlice \/ TBin \/ TReshape \/ TRavel
             \/ TReduce
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
