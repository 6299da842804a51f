------------------------------ MODULE Pipelines ------------------------------
(***************************************************************************)
(* Pipelines (stempy.pipeline): functions with declared parameters. The    *)
(* declarations wrap the function one by one, and each wrapper fills in    *)
(* the default of its parameter.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* declared: <<name, default>>, in the order in which they are written, where
\* the first one is the outermost one; a name is declared once
Names(declared) == {declared[k][1] : k \in 1..Len(declared)}
Default(declared, n) == declared[CHOOSE k \in 1..Len(declared) : declared[k][1] = n][2]

\* What the function gets for the arguments of a call, a function of names
Received(declared, given) ==
    [n \in DOMAIN given \cup Names(declared) |->
        IF n \in DOMAIN given THEN given[n] ELSE Default(declared, n)]

\* The order in which the parameters are registered: the innermost first
Registered(declared) == [k \in 1..Len(declared) |-> declared[Len(declared) + 1 - k]]
=============================================================================
