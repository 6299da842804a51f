-------------------------- MODULE SectorReaderImpl --------------------------
(***************************************************************************)
(* How stempy/reader.cpp implements SectorReader: it visits the open       *)
(* streams in turn, reads one sector of each, assembles the frames in a    *)
(* cache keyed by the frame number and closes a stream at its end. At the  *)
(* end of all of the streams the frames left in the cache are delivered.   *)
(* TLC checks that it refines SectorReader for all of the files within the *)
(* constants.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS
    Files,      \* the sectors of the files: a sequence of sectors
    NFrames,
    MaxCalls

\* Two sectors, one of which is in two files
MCFiles == <<0, 1, 1>>
MCFiles2 == <<0, 1>>

Frames == 1..NFrames
Sectors == {Files[i] : i \in 1..Len(Files)}

\* The frames in a file, in any order
FileSet == {s \in SeqOf(Frames, NFrames) : IsInjective(s)}

VARIABLES
    content,  \* content[i]: the frames whose sector Files[i] is in file i
    at,       \* at[i]: the records of file i that were read
    open,     \* the indices of the open streams, in order
    it,       \* the position of the iterator in `open`
    cache,    \* cache[f]: the sectors of frame f that were assembled, or <<>>
    pc, reply, calls, delivered

vars == <<content, at, open, it, cache, pc, reply, calls, delivered>>

Stored == UNION {{<<content[i][k], Files[i]>> : k \in 1..Len(content[i])} : i \in 1..Len(Files)}
Records == FoldSeq(LAMBDA s, n : Len(s) + n, 0, content)
Nothing == [kind |-> "None"]
NoCache == [f \in Frames |-> {}]
AllOpen == [i \in 1..Len(Files) |-> i]

Init == /\ content \in [1..Len(Files) -> FileSet]
        \* A sector of a frame is written only once
        /\ Records = Cardinality(Stored)
        /\ at = [i \in 1..Len(Files) |-> 0]
        /\ open = AllOpen /\ it = 1 /\ cache = NoCache
        /\ pc = "idle" /\ reply = Nothing /\ calls = 0 /\ delivered = {}

Call == /\ pc = "idle" /\ calls < MaxCalls
        /\ calls' = calls + 1 /\ pc' = "scan"
        /\ UNCHANGED <<content, at, open, it, cache, reply, delivered>>

Reset == /\ pc = "idle" /\ calls < MaxCalls
         /\ calls' = calls + 1
         /\ at' = [i \in 1..Len(Files) |-> 0]
         /\ open' = AllOpen /\ it' = 1 /\ cache' = NoCache
         /\ delivered' = {} /\ reply' = Nothing
         /\ UNCHANGED <<content, pc>>

ReturnFrame(f, has) ==
    /\ pc' = "idle"
    /\ reply' = [kind |-> "Block", frame |-> f, has |-> has]
    /\ delivered' = delivered \cup {f}

Visit ==
    /\ pc = "scan" /\ open # <<>>
    /\ IF it > Len(open)
       THEN it' = 1 /\ UNCHANGED <<at, open, cache, pc, reply, delivered>>
       ELSE LET i == open[it] IN
            IF at[i] = Len(content[i])
            THEN \* Close the stream; the iterator is at the next one
                 /\ open' = RemoveAt(open, it)
                 /\ UNCHANGED <<at, it, cache, pc, reply, delivered>>
            ELSE LET f == content[i][at[i] + 1]
                     has == cache[f] \cup {Files[i]} IN
                 /\ at' = [at EXCEPT ![i] = @ + 1]
                 /\ it' = it + 1
                 /\ open' = open
                 /\ IF has = Sectors
                    THEN cache' = [cache EXCEPT ![f] = {}] /\ ReturnFrame(f, has)
                    ELSE /\ cache' = [cache EXCEPT ![f] = has]
                         /\ UNCHANGED <<pc, reply, delivered>>
    /\ UNCHANGED <<content, calls>>

Left == {f \in Frames : cache[f] # {}}

Flush ==
    /\ pc = "scan" /\ open = <<>>
    /\ IF Left = {}
       THEN pc' = "idle" /\ reply' = [kind |-> "End"] /\ UNCHANGED <<cache, delivered>>
       ELSE LET f == CHOOSE f \in Left : \A g \in Left : f <= g IN
            cache' = [cache EXCEPT ![f] = {}] /\ ReturnFrame(f, cache[f])
    /\ UNCHANGED <<content, at, open, it, calls>>

Next == Call \/ Visit \/ Flush \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Visit \/ Flush)

Abs == INSTANCE SectorReader WITH sectors <- Sectors, stored <- Stored
Refines == Abs!SecStart(Sectors, Stored) /\ [][Abs!SecNext]_<<Stored, delivered, reply>>
Returns == (pc # "idle") ~> (pc = "idle")
=============================================================================
