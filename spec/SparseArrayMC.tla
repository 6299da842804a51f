---------------------------- MODULE SparseArrayMC ----------------------------
EXTENDS SparseArray
CONSTANT Wide
Few == { [kind |-> "all"], [kind |-> "int", v |-> -1],
         [kind |-> "slice", v |-> <<<<>>, <<>>, <<-1>>>>] }
More == Few \cup { [kind |-> "list", v |-> <<1, 0, 1>>],
                   [kind |-> "slice", v |-> <<<<1>>, <<>>, <<>>>>],
                   [kind |-> "list", v |-> <<0>>], [kind |-> "mask", v |-> <<0, 1>>] }
SelectorsMC == IF Wide THEN More ELSE Few \cup {[kind |-> "list", v |-> <<1, 0, 1>>]}
\* Without Wide: one frame of 2x2 pixels or two of 1x2 pixels at a few positions
ScansMC == IF Wide THEN {<<2, 2>>} ELSE {<<2>>, <<1, 2>>}
FramesMC == IF Wide THEN {<<1, 2>>} ELSE {<<2, 2>>}
ScansMC1 == {<<1>>}
FramesMC2 == {<<1, 2>>, <<2, 1>>}
=============================================================================
