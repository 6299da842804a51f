------------------------------ MODULE Ownership ------------------------------
(***************************************************************************)
(* The arrays that a user holds: the data of blocks, images, sums, frames  *)
(* of electrons, arrays made from others, and the inputs of functions.     *)
(*                                                                         *)
(* Every array that the library returns has memory of its own: its values  *)
(* are those at the time it was returned, until the user writes to it or   *)
(* to a view of it, whatever happens to the objects it came from (readers, *)
(* blocks, files, other results) and whatever else is computed. No         *)
(* function but those whose purpose it is writes to its inputs.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES held, \* array -> [region, index]: where its elements are
          mem   \* region -> values
vars == <<held, mem>>

Init == held = <<>> /\ mem = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Regions == {held[a].region : a \in DOMAIN held}
Values(a) == LET h == held[a] IN [i \in 1..Len(h.index) |-> mem[h.region][h.index[i]]]

\* A region is named by the array it was made for
Make(a, values) ==
    /\ a \notin DOMAIN held /\ a \notin DOMAIN mem
    /\ held' = Put(held, a, [region |-> a, index |-> [i \in 1..Len(values) |-> i]])
    /\ mem' = Put(mem, a, values)

\* Elements (index) of an array: the same memory
View(a, b, index) ==
    /\ a \notin DOMAIN held /\ b \in DOMAIN held
    /\ held' = Put(held, a, [region |-> held[b].region,
                             index |-> [i \in 1..Len(index) |-> held[b].index[index[i]]]])
    /\ UNCHANGED mem

\* The same elements, in memory of its own
Copy(a, b, index) ==
    /\ b \in DOMAIN held
    /\ \E v \in {Values(b)} : Make(a, [i \in 1..Len(index) |-> v[index[i]]])

Write(a, i, value) ==
    /\ a \in DOMAIN held
    /\ mem' = [mem EXCEPT ![held[a].region][held[a].index[i]] = value]
    /\ UNCHANGED held

\* The memory ends with the last array that uses it
Drop(a) ==
    /\ a \in DOMAIN held
    /\ LET left == [x \in DOMAIN held \ {a} |-> held[x]]
       IN /\ held' = left
          /\ mem' = [r \in {left[x].region : x \in DOMAIN left} |-> mem[r]]

\* Anything else: functions, readers, files, other objects that end
Other == UNCHANGED vars

InMemory == \A a \in DOMAIN held :
                /\ held[a].region \in DOMAIN mem
                /\ \A i \in 1..Len(held[a].index) :
                      held[a].index[i] \in 1..Len(mem[held[a].region])
NoLeak == DOMAIN mem = Regions
\* The values of an array change only if one element of its memory is written, and
\* then those of the arrays with other memory do not
OnlyWrites == [][\A a \in DOMAIN held \cap DOMAIN held' :
                    (Values(a))' # Values(a) =>
                       /\ held' = held /\ DOMAIN mem' = DOMAIN mem
                       /\ \A b \in DOMAIN held : held[b].region # held[a].region =>
                             (Values(b))' = Values(b)
                       /\ Cardinality({i \in 1..Len(mem[held[a].region]) :
                             mem'[held[a].region][i] # mem[held[a].region][i]}) = 1]_vars
=============================================================================
