------------------------------- MODULE H5Files -------------------------------
(***************************************************************************)
(* HDF5 files (h5cpp/h5readwrite.h): groups, data sets and attributes.     *)
(* A file is a function from paths (sequences of names) to objects. An     *)
(* operation that fails changes nothing.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Numeric == {"Int8", "Int16", "Int32", "Int64", "UInt8", "UInt16", "UInt32", "UInt64",
            "Float", "Double"}
Group == [kind |-> "group", type |-> "", dims |-> <<>>, values |-> <<>>, attrs |-> <<>>]
Data(t, dims, values) ==
    [kind |-> "data", type |-> t, dims |-> dims, values |-> values, attrs |-> <<>>]
Empty == (<<>> :> Group)

Parent(p) == SubSeq(p, 1, Len(p) - 1)
IsGroup(f, p) == IF p \in DOMAIN f THEN f[p].kind = "group" ELSE FALSE
IsData(f, p) == IF p \in DOMAIN f THEN f[p].kind = "data" ELSE FALSE
\* Where an object can be created
IsNew(f, p) == p # <<>> /\ p \notin DOMAIN f /\ IsGroup(f, Parent(p))
Put(f, p, o) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN o ELSE f[q]]

RECURSIVE Product(_)
Product(d) == IF d = <<>> THEN 1 ELSE d[1] * Product(Tail(d))
Stride(d, k) == Product(SubSeq(d, k + 1, Len(d)))
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
\* The flat indices (from 1) of a block, in its order
Block(dims, start, strides, counts) ==
    [k \in 1..Product(counts) |->
       1 + LET At(i) == (start[i] + strides[i] * (((k - 1) \div Stride(counts, i)) % counts[i]))
                          * Stride(dims, i)
           IN SumTo(At, Len(dims))]
Inside(dims, start, strides, counts) ==
    \A i \in 1..Len(dims) : start[i] + strides[i] * (counts[i] - 1) < dims[i]

Fill(n, x) == [k \in 1..n |-> x]
Or(s, default) == IF s = <<>> THEN default ELSE s
\* As many elements as there are, if counts are not given
Counts(dims, start, strides, counts) ==
    Or(counts, [i \in 1..Len(dims) |-> (dims[i] - start[i]) \div strides[i]])

-----------------------------------------------------------------------------
CanWrite(f, p, chunk, dims) ==
    /\ IsNew(f, p)
    /\ chunk # <<>> => /\ Len(chunk) = Len(dims)
                       /\ \A i \in 1..Len(dims) : chunk[i] >= 1 /\ chunk[i] <= dims[i]
Written(f, p, t, dims, values) == Put(f, p, Data(t, dims, values))
Created(f, p, t, dims) == Put(f, p, Data(t, dims, Fill(Product(dims), 0)))

CanUpdate(f, p, start, counts) ==
    IF IsData(f, p)
    THEN LET d == f[p].dims
             s == Or(start, Fill(Len(d), 0))
             ones == Fill(Len(d), 1)
         IN Inside(d, s, ones, Counts(d, s, ones, counts))
    ELSE FALSE
Updated(f, p, start, counts, values) ==
    LET d == f[p].dims
        s == Or(start, Fill(Len(d), 0))
        ones == Fill(Len(d), 1)
        b == Block(d, s, ones, Counts(d, s, ones, counts))
    IN Put(f, p, [f[p] EXCEPT !.values =
         [k \in 1..Len(@) |-> IF \E j \in 1..Len(b) : b[j] = k
                              THEN values[CHOOSE j \in 1..Len(b) : b[j] = k] ELSE @[k]]])

CanRead(f, p, t, start, strides, counts) ==
    IF IsData(f, p)
    THEN LET d == f[p].dims
             s == Or(start, Fill(Len(d), 0))
             st == Or(strides, Fill(Len(d), 1))
         IN f[p].type = t /\ Inside(d, s, st, Counts(d, s, st, counts))
    ELSE FALSE
Read(f, p, start, strides, counts) ==
    LET d == f[p].dims
        s == Or(start, Fill(Len(d), 0))
        st == Or(strides, Fill(Len(d), 1))
        b == Block(d, s, st, Counts(d, s, st, counts))
    IN [k \in 1..Len(b) |-> f[p].values[b[k]]]

HasAttribute(f, p, a) == IF p \in DOMAIN f THEN a \in DOMAIN f[p].attrs ELSE FALSE
CanSet(f, p, a) == p \in DOMAIN f /\ ~HasAttribute(f, p, a)
WithAttribute(f, p, a, t, values) ==
    Put(f, p, [f[p] EXCEPT !.attrs =
        [n \in DOMAIN @ \cup {a} |-> IF n = a THEN [type |-> t, values |-> values] ELSE @[n]]])
\* Attributes with several values cannot be read as one
CanGet(f, p, a, t) ==
    IF HasAttribute(f, p, a)
    THEN f[p].attrs[a].type = t /\ Len(f[p].attrs[a].values) = 1 ELSE FALSE

Children(f, p) == {q \in DOMAIN f : Len(q) = Len(p) + 1 /\ Parent(q) = p}
AllData(f, p) == IF IsGroup(f, p)
                 THEN {SubSeq(q, Len(p) + 1, Len(q)) :
                         q \in {x \in DOMAIN f : /\ IsData(f, x) /\ Len(x) > Len(p)
                                                 /\ SubSeq(x, 1, Len(p)) = p}}
                 ELSE {}
DataType(f, p) == IF IsData(f, p) THEN IF f[p].type \in Numeric THEN f[p].type ELSE "None"
                  ELSE "None"
AttributeType(f, p, a) ==
    IF HasAttribute(f, p, a)
    THEN IF f[p].attrs[a].type \in Numeric \cup {"String"} THEN f[p].attrs[a].type ELSE "None"
    ELSE "None"
Dimensions(f, p) == IF IsData(f, p) THEN f[p].dims ELSE <<>>
=============================================================================
