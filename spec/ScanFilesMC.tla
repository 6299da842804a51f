----------------------------- MODULE ScanFilesMC -----------------------------
(***************************************************************************)
(* Directories whose files come and go, and requests: nothing that belongs *)
(* to another scan is ever returned, and files of other scans never matter.*)
(***************************************************************************)
EXTENDS ScanFiles

CONSTANTS Nums, Ids, MaxFiles
Suffixes == {"", "_centered"}
V1 == [v : {1}, num : Nums, id : Ids, th : {None}, suffix : Suffixes]
V0 == [v : {0}, num : Nums, id : Ids \cup {None}, th : {None}, suffix : Suffixes] \cup
      [v : {0}, num : Nums, id : {None}, th : {4}, suffix : {""}]
Requests == [version : {None, 0, 1, 2}, num : Nums \cup {None}, id : Ids \cup {None},
             th : {None, 4}, suffix : Suffixes]

VARIABLE files
Init == files = {}
Add == Cardinality(files) < MaxFiles /\ \E f \in V0 \cup V1 : files' = files \cup {f}
Remove == \E f \in files : files' = files \ {f}
Spec == Init /\ [][Add \/ Remove]_files

Result(q) == Lookup(files, q)
\* What is found exists and is of the scan
Sound == \A q \in Requests : Result(q).kind = "Found" =>
    /\ Result(q).file \in files
    /\ Result(q).file.suffix = q.suffix
    /\ q.id # None => Result(q).file.id = q.id /\ Result(q).id = q.id
    /\ (q.id = None) => Result(q).num = q.num
    /\ q.version # None => Result(q).file.v = q.version
\* An id that exists once is found
Complete == \A f \in files : f.id # None /\ (\A g \in files \ {f} : g.id # f.id) =>
    LET q == [version |-> None, num |-> None, id |-> f.id, th |-> None, suffix |-> f.suffix]
    IN Result(q) = [kind |-> "Found", file |-> f, num |-> f.num, id |-> f.id]
\* Files of other scans do not matter
Independent == \A q \in Requests : \A f \in files :
    (f.suffix # q.suffix \/ (q.id # None /\ f.id # q.id) \/ (q.id = None /\ f.num # q.num)) =>
        Lookup(files \ {f}, q) = Result(q)
=============================================================================
