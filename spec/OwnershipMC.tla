----------------------------- MODULE OwnershipMC -----------------------------
EXTENDS Ownership, TLC
CONSTANT Arrays
Idx == {<<1>>, <<2>>, <<2, 1>>}
Fits(b, x) == \A i \in 1..Len(x) : x[i] <= Len(held[b].index)
Next ==
    \/ \E a \in Arrays, x, y \in {0, 1} : Make(a, <<x, y>>)
    \/ \E a \in Arrays, b \in DOMAIN held, x \in Idx :
          Fits(b, x) /\ a \notin DOMAIN mem /\ (View(a, b, x) \/ Copy(a, b, x))
    \/ \E a \in DOMAIN held, v \in {0, 1} :
          \E i \in 1..Len(held[a].index) : Write(a, i, v)
    \/ \E a \in DOMAIN held : Drop(a)
    \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
