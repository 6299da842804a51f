------------------------------ MODULE RawFilesMC ------------------------------
(***************************************************************************)
(* A stream of frames (the complete ones first, each once, in any order;   *)
(* see SectorReader) is written to a file frame by frame, and the file is  *)
(* read in blocks by readers that can be reset at any time.                *)
(***************************************************************************)
EXTENDS RawFiles, SequencesExt, TLC
CONSTANTS NPositions, NFrames, Sizes, MaxResets

VARIABLES pos, partial, before, written, file, reader, got, resets
vars == <<pos, partial, before, written, file, reader, got, resets>>

Frames == 1..NFrames
None == [none |-> TRUE]

Init == /\ pos \in [Frames -> 0..(NPositions - 1)]
        /\ partial \in SUBSET Frames
        \* The frames that were read before the conversion
        /\ before \in {b \in SUBSET Frames : b \cap partial # {} => (Frames \ partial) \subseteq b}
        /\ written = before
        /\ file = [shape |-> <<8, 8>>, frames |-> [k \in 1..NPositions |-> 0],
                   scan |-> <<NPositions, 1>>, positions |-> Ids(NPositions)]
        /\ reader = None /\ got = <<>> /\ resets = 0

WriteFrame ==
    /\ reader = None
    /\ \E f \in Frames \ written :
         /\ f \in partial => (Frames \ partial) \subseteq written
         /\ file' = [file EXCEPT !.frames[pos[f] + 1] = f]
         /\ written' = written \cup {f}
    /\ UNCHANGED <<pos, partial, before, reader, got, resets>>

Open == /\ written = Frames /\ reader = None
        /\ \E s \in Sizes : reader' = OpenFile(file, s)
        /\ UNCHANGED <<pos, partial, before, written, file, got, resets>>

Read == /\ reader # None /\ ~AtEnd(reader)
        /\ got' = Append(got, BlockOf(reader))
        /\ reader' = Advance(reader)
        /\ UNCHANGED <<pos, partial, before, written, file, resets>>

Reset == /\ reader # None /\ resets < MaxResets
         /\ resets' = resets + 1
         /\ reader' = Rewind(reader) /\ got' = <<>>
         /\ UNCHANGED <<pos, partial, before, written, file>>

Next == WriteFrame \/ Open \/ Read \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(WriteFrame) /\ WF_vars(Open)

\* Writing frame by frame gives what Converted says
Refines == written = Frames =>
    Converted(file.frames, NPositions, (Frames \ before) \ partial, partial \ before, pos,
              [f \in Frames |-> f], 0)

Cat(x) == FlattenSeq([k \in 1..Len(got) |-> got[k][x]])
\* What was read is the beginning of the file
Prefix == reader # None =>
    /\ Cat("frames") = SubSeq(file.frames, 1, reader.next)
    /\ Cat("numbers") = SubSeq(file.positions, 1, reader.next)
    /\ \A k \in 1..Len(got) : got[k].images > 0
    /\ \A k \in 1..(Len(got) - 1) : got[k].images = reader.size
    /\ AtEnd(reader) => Cat("frames") = file.frames
Ends == <>(reader # None /\ AtEnd(reader))
=============================================================================
