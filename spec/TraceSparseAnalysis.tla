------------------------ MODULE TraceSparseAnalysis ------------------------
(***************************************************************************)
(* Traces of the analysis functions of an array of counted data.           *)
(***************************************************************************)
EXTENDS SparseAnalysis, TraceUtil

VARIABLES src   \* [scan, shape, data]
vars == <<src, l>>

TraceInit == src = [scan |-> <<0, 0>>, shape |-> <<0, 0>>, data |-> <<>>] /\ l = 1

TNew == IsEvent("New") /\ UNCHANGED src
TSource == IsEvent("Source") /\ src' = [scan |-> Ev.scan, shape |-> Ev.shape, data |-> Ev.data]

TCom == /\ IsEvent("Com") /\ UNCHANGED src
        /\ Ev.shape = <<2>> \o src.scan
        /\ \E coms \in {[p \in 1..Len(src.data) |-> Com(src.data[p], src.shape, Ev.crop, Ev.center)]} :
             IsCom(Ev.out, coms, Ev.replace)

TDarkField == /\ IsEvent("DarkField") /\ UNCHANGED src
              /\ Ev.shape = src.scan
              /\ Ev.out = DarkField(src.data, src.shape, Ev.apertures)

TRadialSum == /\ IsEvent("RadialSum") /\ UNCHANGED src
              /\ Ev.shape = src.scan \o <<Bins(src.shape)>>
              /\ \A p \in 1..Len(src.data) :
                   IsRadialSum(Ev.out[p], src.data[p], src.shape, Ev.center)

TSum == /\ IsEvent("Sum") /\ UNCHANGED src
        /\ Ev.shape = src.shape
        /\ Ev.out = Pattern(src.data, All(src.data), src.shape)

TMask == /\ IsEvent("Mask") /\ UNCHANGED src
         /\ Ev.shape = src.shape
         /\ Ev.out = Pattern(src.data, Masked(Ev.mask), src.shape)

\* Of dense frames of shape <<rows, columns>>
TDenseCom == /\ IsEvent("DenseCom") /\ UNCHANGED src
             /\ Len(Ev.out) = 2
             /\ \A c \in 1..2 :
                  /\ Len(Ev.out[c]) = Len(Ev.frames)
                  /\ \A k \in 1..Len(Ev.frames) :
                       LET m == DenseCom(Ev.frames[k], Ev.shape)
                       IN IF m[3] = 0 THEN Ev.out[c][k] = NaN
                          ELSE IsQuotient(Ev.out[c][k], m[c], m[3])

TFilter == /\ IsEvent("Filter") /\ UNCHANGED src
           /\ Ev.out = Filtered(Ev.com, Ev.scan, Ev.low, Ev.high)

TraceNext == TNew \/ TSource \/ TCom \/ TDarkField \/ TRadialSum \/ TSum \/ TMask \/ TDenseCom
             \/ TFilter
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
