--------------------------- MODULE GenStreamReader ---------------------------
(***************************************************************************)
(* All of the layouts of the files and all of the sequences of calls,      *)
(* within the constants. Each maximal behaviour is printed.                *)
(***************************************************************************)
EXTENDS StreamReader, FiniteSets, SequencesExt, TLC, Json

CONSTANTS MaxFiles, MaxBlocks, MaxCalls, Truncate
VARIABLES files, hist
vars == <<srvars, files, hist>>

\* A file: the number of blocks and where the last one is cut
\* ("no", "header": within the header, "edge": after it, "data", "last": one
\* byte is missing)
Cuts == IF Truncate THEN {"no", "header", "edge", "data", "last"} ELSE {"no"}
FileSet == {[blocks |-> b, cut |-> c] : b \in 0..MaxBlocks, c \in Cuts}
Valid(f) == f.blocks = 0 => f.cut = "no"
FlatOf(fs) == FlattenSeq([i \in 1..Len(fs) |->
                [k \in 1..fs[i].blocks |->
                   [whole |-> k < fs[i].blocks \/ fs[i].cut = "no"]]])

Init == /\ files \in {fs \in SeqOf({f \in FileSet : Valid(f)}, MaxFiles) : fs # <<>>}
        /\ SRStart(FlatOf(files))
        /\ hist = <<>>

Op(name, A) == Len(hist) < MaxCalls /\ A /\ hist' = Append(hist, name) /\ UNCHANGED files

Next == Op("Read", Read) \/ (hist # <<>> /\ Op("Reset", Reset))
Spec == Init /\ [][Next]_vars

Emit == Len(hist) = MaxCalls =>
           PrintT("GEN " \o ToJson([files |-> files, ops |-> hist]))
=============================================================================
