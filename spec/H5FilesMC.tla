------------------------------ MODULE H5FilesMC ------------------------------
(***************************************************************************)
(* All histories of small files: they stay trees, what was written is      *)
(* read, other elements and objects do not change, and blocks with strides *)
(* are those of nested loops.                                              *)
(***************************************************************************)
EXTENDS H5Files

CONSTANTS Names, Depth, Shapes, Attributes, MaxSteps
Paths == UNION {[1..n -> Names] : n \in 0..Depth}
Starts(d) == {<<>>} \cup [1..Len(d) -> 0..2]
CountsOf(d) == {<<>>} \cup [1..Len(d) -> 1..2]
ShapesMC == {<<2>>, <<2, 2>>}
DeepShapes == {<<3>>, <<2, 2>>, <<1, 3>>}

VARIABLES file, old, step, what
vars == <<file, old, step, what>>
Init == file = Empty /\ old = Empty /\ step = 0 /\ what = [op |-> "none"]

Do(can, new, w) == /\ can /\ file' = new /\ what' = w
Next ==
    /\ step < MaxSteps /\ step' = step + 1 /\ old' = file
    /\ \E p \in Paths :
        \/ Do(IsNew(file, p), Put(file, p, Group), [op |-> "group", path |-> p])
        \/ \E d \in Shapes :
              \/ Do(CanWrite(file, p, <<>>, d), Written(file, p, "Int8", d, Fill(Product(d), 1)),
                    [op |-> "write", path |-> p])
              \/ Do(CanWrite(file, p, d, d), Created(file, p, "Int8", d),
                    [op |-> "write", path |-> p])
        \/ \E a \in Attributes :
              Do(CanSet(file, p, a), WithAttribute(file, p, a, "Int8", <<1>>),
                 [op |-> "attribute", path |-> p])
        \/ IsData(file, p) /\ \E s \in Starts(file[p].dims), c \in CountsOf(file[p].dims) :
              /\ CanUpdate(file, p, s, c)
              /\ \E v \in {Fill(Product(file[p].dims), 2)} :
                   Do(TRUE, Updated(file, p, s, c, v),
                      [op |-> "update", path |-> p, start |-> s, counts |-> c])
Spec == Init /\ [][Next]_vars

Tree == <<>> \in DOMAIN file /\ \A p \in DOMAIN file \ {<<>>} : IsGroup(file, Parent(p))
Sizes == \A p \in DOMAIN file : IsData(file, p) =>
            Len(file[p].values) = Product(file[p].dims)
\* Only the object of the operation changes, and nothing disappears
Frame == what.op # "none" =>
    /\ DOMAIN old \subseteq DOMAIN file
    /\ \A p \in DOMAIN old : p # what.path => file[p] = old[p]
    /\ \A p \in DOMAIN file \ DOMAIN old : p = what.path
ReadBack == what.op = "update" =>
    LET p == what.path
        d == file[p].dims
        r == Read(file, p, what.start, <<>>, what.counts)
        s == Or(what.start, Fill(Len(d), 0))
        b == Block(d, s, Fill(Len(d), 1), Counts(d, s, Fill(Len(d), 1), what.counts))
    IN /\ \A k \in 1..Len(r) : r[k] = 2
       /\ \A k \in 1..Len(file[p].values) :
             (\A j \in 1..Len(b) : b[j] # k) => file[p].values[k] = old[p].values[k]
       /\ \A i, j \in 1..Len(b) : i < j => b[i] < b[j]
\* The whole is the block of everything
Whole == \A p \in DOMAIN file : IsData(file, p) =>
    /\ CanRead(file, p, "Int8", <<>>, <<>>, <<>>)
    /\ Read(file, p, <<>>, <<>>, <<>>) = file[p].values
Lists == \A p \in DOMAIN file :
    /\ IsGroup(file, p) =>
          AllData(file, p) = UNION {IF IsData(file, q) THEN {<<q[Len(q)]>>}
                                    ELSE {<<q[Len(q)]>> \o x : x \in AllData(file, q)} :
                                      q \in Children(file, p)}
ASSUME \A n \in 1..5, s \in 0..4, k \in 1..3 : \A c \in 1..3 :
    Inside(<<n>>, <<s>>, <<k>>, <<c>>) =>
        Block(<<n>>, <<s>>, <<k>>, <<c>>) = [i \in 1..c |-> 1 + s + k * (i - 1)]
ASSUME Block(<<3, 4>>, <<1, 1>>, <<1, 2>>, <<2, 2>>) = <<6, 8, 10, 12>>
=============================================================================
