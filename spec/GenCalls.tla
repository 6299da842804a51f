------------------------------ MODULE GenCalls ------------------------------
(* All sequences of Length calls out of the calls of an interface *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Calls, Length
VARIABLE hist
Init == hist = <<>>
Next == Len(hist) < Length /\ \E c \in Calls : hist' = Append(hist, c)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Length => PrintT("GEN " \o ToJson(hist))
=============================================================================
