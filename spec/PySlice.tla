-------------------------------- MODULE PySlice --------------------------------
(***************************************************************************)
(* Python's sequence indexing. A selector is a record:                     *)
(*   [kind |-> "all"]                                                      *)
(*   [kind |-> "int", v |-> i]                                             *)
(*   [kind |-> "slice", v |-> <<start, stop, step>>], each a sequence that *)
(*       is empty for None and has the number otherwise                    *)
(*   [kind |-> "list", v |-> <<i, ...>>]                                   *)
(*   [kind |-> "mask", v |-> <<0 or 1, ...>>]                              *)
(* Indices are zero based and count from the end if they are negative.     *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

PyMin(a, b) == IF a < b THEN a ELSE b
PyMax(a, b) == IF a > b THEN a ELSE b

\* The indices of slice(start, stop, step) in a sequence of length n
SliceIndices(s, n) ==
    LET step  == IF s[3] = <<>> THEN 1 ELSE s[3][1]
        lower == IF step > 0 THEN 0 ELSE -1
        upper == IF step > 0 THEN n ELSE n - 1
        Clip(x) == IF x < 0 THEN PyMax(x + n, lower) ELSE PyMin(x, upper)
        start == IF s[1] = <<>> THEN (IF step > 0 THEN lower ELSE upper) ELSE Clip(s[1][1])
        stop  == IF s[2] = <<>> THEN (IF step > 0 THEN upper ELSE lower) ELSE Clip(s[2][1])
        count == IF step > 0
                 THEN (IF start < stop THEN (stop - start - 1) \div step + 1 ELSE 0)
                 ELSE (IF stop < start THEN (start - stop - 1) \div (-step) + 1 ELSE 0)
    IN [k \in 1..count |-> start + (k - 1) * step]

InBounds(i, n) == i >= -n /\ i < n
Wrap(i, n) == IF i < 0 THEN i + n ELSE i

\* Whether the selector can be applied to a sequence of length n
ValidSel(sel, n) ==
    CASE sel.kind = "all"   -> TRUE
      [] sel.kind = "int"   -> InBounds(sel.v, n)
      [] sel.kind = "slice" -> sel.v[3] # <<0>>
      [] sel.kind = "list"  -> \A k \in 1..Len(sel.v) : InBounds(sel.v[k], n)
      [] sel.kind = "mask"  -> Len(sel.v) = n

MaskIndices(m) == SelectSeq([k \in 1..Len(m) |-> k - 1], LAMBDA i : m[i + 1] = 1)

\* The indices that it selects, in order
SelIndices(sel, n) ==
    CASE sel.kind = "all"   -> [k \in 1..n |-> k - 1]
      [] sel.kind = "int"   -> <<Wrap(sel.v, n)>>
      [] sel.kind = "slice" -> SliceIndices(sel.v, n)
      [] sel.kind = "list"  -> [k \in 1..Len(sel.v) |-> Wrap(sel.v[k], n)]
      [] sel.kind = "mask"  -> MaskIndices(sel.v)
=============================================================================
