------------------------------ MODULE ScanFiles ------------------------------
(***************************************************************************)
(* Finding the file of a scan in a directory (stempy.contrib).             *)
(* A file is [v, num, id, th, suffix]: the version of its name, the scan   *)
(* number, the Distiller id, the threshold (None if the name has none) and *)
(* the suffix.                                                             *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

None == -1

\* A request is [version, num, id, th, suffix]
Matches(f, q, v) ==
    /\ f.v = v /\ f.suffix = q.suffix
    /\ IF q.id # None THEN f.id = q.id
       ELSE /\ f.num = q.num
            /\ (v = 0 /\ q.th # None) => f.th = q.th /\ f.id = None
Found(files, q, v) == {f \in files : Matches(f, q, v)}

Error(e) == [kind |-> "Error", error |-> e]
File(f, q) == [kind |-> "Found", file |-> f, num |-> f.num,
               id |-> IF f.id = None THEN q.id ELSE f.id]
One(S, q) == IF Cardinality(S) > 1 THEN Error("ValueError")
             ELSE File(CHOOSE f \in S : TRUE, q)

Lookup(files, q) ==
    IF q.version \notin {None, 0, 1} THEN Error("NotImplementedError")
    ELSE IF q.num = None /\ q.id = None THEN Error("TypeError")
    ELSE LET S1 == IF q.version = 0 THEN {} ELSE Found(files, q, 1)
             S0 == IF q.version = 1 THEN {} ELSE Found(files, q, 0)
         IN IF S1 # {} THEN One(S1, q)
            ELSE IF S0 # {} THEN One(S0, q)
            ELSE Error("FileNotFoundError")
=============================================================================
