--------------------------- MODULE GenSectorReader ---------------------------
(***************************************************************************)
(* All of the contents of four files with the sectors of up to NFrames     *)
(* frames and all of the sequences of calls with at most MaxOther calls    *)
(* that are not read().                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC, Json

CONSTANTS NFrames, MaxCalls, MaxOther

VARIABLES files, hist
vars == <<files, hist>>

FileSet == {s \in SeqOf(1..NFrames, NFrames) : IsInjective(s)}
Init == files \in [1..4 -> FileSet] /\ hist = <<>>
Other == Cardinality({k \in 1..Len(hist) : hist[k] # "Read"})
Op(name) == Len(hist) < MaxCalls /\ hist' = Append(hist, name) /\ UNCHANGED files
Next == \/ Op("Read")
        \/ Other < MaxOther /\ hist # <<>> /\ Op("Reset")
        \/ Other < MaxOther /\ (\E i \in 1..4 : files[i] # <<>>) /\ Op("Captured")
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = MaxCalls =>
          PrintT("GEN " \o ToJson([files |-> files, ops |-> hist]))
=============================================================================
