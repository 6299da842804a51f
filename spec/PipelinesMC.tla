----------------------------- MODULE PipelinesMC -----------------------------
(***************************************************************************)
(* A call passes through the wrappers, the outermost first.                *)
(***************************************************************************)
EXTENDS Pipelines

CONSTANTS Universe, Values
Declarations == UNION {{d \in [1..n -> Universe \X Values] :
                           \A i, j \in 1..n : i # j => d[i][1] # d[j][1]} : n \in 0..3}
Arguments == UNION {[S -> Values] : S \in SUBSET Universe}

VARIABLES declared, given, at, args
vars == <<declared, given, at, args>>
Init == /\ declared \in Declarations /\ given \in Arguments
        /\ at = 1 /\ args = given
Wrapper == /\ at <= Len(declared)
           /\ LET p == declared[at]
              IN args' = IF p[1] \in DOMAIN args THEN args
                         ELSE [n \in DOMAIN args \cup {p[1]} |->
                                 IF n = p[1] THEN p[2] ELSE args[n]]
           /\ at' = at + 1 /\ UNCHANGED <<declared, given>>
Spec == Init /\ [][Wrapper]_vars
Right == at > Len(declared) => args = Received(declared, given)
Kept == \A n \in DOMAIN given : args[n] = given[n]
=============================================================================
