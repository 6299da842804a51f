------------------------------- MODULE MultiPass -------------------------------
(***************************************************************************)
(* The design of SectorStreamMultiPassThreadedReader (stempy/reader.h):    *)
(*  - the first pass reads the headers of all of the files with worker     *)
(*    threads (an atomic counter hands out the files) and records in a map *)
(*    where each sector of each frame at each scan position is;            *)
(*  - readAll hands out the scan positions with the same counter; a worker *)
(*    reads the sectors of the frames at its position, with the stream of  *)
(*    each sector locked from the seek to the end of the read;             *)
(*  - readFrames (random access) reads frames in the calling thread.       *)
(* The main thread performs any sequence of these calls: the map is built  *)
(* by the first one.                                                       *)
(*                                                                         *)
(* TLC checks for all schedules and files within the constants that the    *)
(* map is exact, that a read returns the sector that was looked for, that  *)
(* every frame is delivered exactly once by each readAll, with all of the  *)
(* sectors that are stored and the right complete flag, and that random    *)
(* access does not depend on what was called before.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Threads, Main, Files, NFrames, NPos, MaxCalls

Frames == 1..NFrames
Positions == 0..(NPos - 1)
NFiles == Len(Files)
Sectors == {Files[i] : i \in 1..NFiles}
FileSet == {s \in SeqOf(Frames, NFrames) : IsInjective(s)}
None == 0

VARIABLES
    content,   \* the frames in each file
    posOf,     \* the scan position of each frame
    map,       \* <<position, frame, sector>> |-> <<file, offset>>, a set
    mapped,    \* whether the map was built
    at,        \* the position of each stream
    locks,     \* the owner of the lock of each stream
    counter,   \* m_processed
    phase,     \* what the main thread does: "idle", "headers", "frames", "load"
    pc, file, offset, poss, todo, frame, sect, buf, \* the workers
    out,       \* the frames delivered by this call
    calls, want

vars == <<content, posOf, map, mapped, at, locks, counter, phase, pc, file, offset,
          poss, todo, frame, sect, buf, out, calls, want>>
Actors == Threads \cup {Main}

Stored == UNION {{<<content[i][k], Files[i]>> : k \in 1..Len(content[i])} : i \in 1..NFiles}
FramesIn == {x[1] : x \in Stored}
Has(f) == {x[2] : x \in {y \in Stored : y[1] = f}}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Init ==
    /\ content \in [1..NFiles -> FileSet]
    /\ FoldSeq(LAMBDA s, n : Len(s) + n, 0, content) = Cardinality(Stored)
    /\ posOf \in [Frames -> Positions]
    /\ map = {} /\ mapped = FALSE
    /\ at = [i \in 1..NFiles |-> 0]
    /\ locks = [i \in 1..NFiles |-> None]
    /\ counter = 0 /\ phase = "idle"
    /\ pc = [t \in Actors |-> "off"]
    /\ file = [t \in Actors |-> None]
    /\ offset = [t \in Actors |-> 0]
    /\ poss = [t \in Actors |-> None]
    /\ todo = [t \in Actors |-> <<>>]
    /\ frame = [t \in Actors |-> None]
    /\ sect = [t \in Actors |-> {}]
    /\ buf = [t \in Actors |-> {}]
    /\ out = <<>> /\ calls = 0 /\ want = <<>>

Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Start(p) == pc' = [t \in Actors |-> IF t \in Threads THEN p ELSE "off"]
FramesAt(p) == Sorted({x[2] : x \in {e[1] : e \in {e \in map : e[1][1] = p}}})

\* The main thread -----------------------------------------------------------
\* Any call builds the map first
CallReadAll ==
    /\ phase = "idle" /\ calls < MaxCalls
    /\ calls' = calls + 1 /\ out' = <<>> /\ want' = <<"all">>
    /\ phase' = IF mapped THEN "frames" ELSE "headers"
    /\ counter' = 0
    /\ Start(IF mapped THEN "nextpos" ELSE "nextfile")
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, file, offset, poss, todo,
                   frame, sect, buf>>

\* readFrames(position, indices): all of the frames there, or one of them
CallLoad(p, idx) ==
    /\ phase = "idle" /\ calls < MaxCalls
    /\ calls' = calls + 1 /\ out' = <<>> /\ want' = <<"load", p, idx>>
    /\ phase' = IF mapped THEN "load" ELSE "headers"
    /\ counter' = 0
    /\ IF mapped
       THEN pc' = [t \in Actors |-> IF t = Main THEN "select" ELSE "off"]
       ELSE Start("nextfile")
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, file, offset, poss, todo,
                   frame, sect, buf>>

\* The futures of the header pass are resolved
HeadersDone ==
    /\ phase = "headers" /\ \A t \in Threads : pc[t] = "done"
    /\ mapped' = TRUE
    /\ at' = [i \in 1..NFiles |-> 0]
    /\ counter' = 0
    /\ IF want[1] = "all"
       THEN phase' = "frames" /\ Start("nextpos")
       ELSE phase' = "load" /\ pc' = [t \in Actors |-> IF t = Main THEN "select" ELSE "off"]
    /\ UNCHANGED <<content, posOf, map, locks, file, offset, poss, todo, frame, sect, buf,
                   out, calls, want>>

Finish ==
    /\ \/ phase = "frames" /\ \A t \in Threads : pc[t] = "done"
       \/ phase = "load" /\ pc[Main] = "done"
    /\ phase' = "idle" /\ pc' = [t \in Actors |-> "off"]
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, counter, file, offset, poss,
                   todo, frame, sect, buf, out, calls, want>>

\* The header pass -----------------------------------------------------------
NextFile(t) ==
    /\ pc[t] = "nextfile"
    /\ counter' = counter + 1
    /\ IF counter >= NFiles
       THEN Go(t, "done") /\ UNCHANGED file
       ELSE file' = [file EXCEPT ![t] = counter + 1] /\ Go(t, "header")
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, phase, offset, poss, todo,
                   frame, sect, buf, out, calls, want>>

ReadHeader(t) ==
    /\ pc[t] = "header"
    /\ LET i == file[t] IN
       IF at[i] = Len(content[i])
       THEN Go(t, "nextfile") /\ UNCHANGED <<map, at>>
       ELSE LET f == content[i][at[i] + 1] IN
            /\ map' = map \cup {<<<<posOf[f], f, Files[i]>>, <<i, at[i]>>>>}
            /\ at' = [at EXCEPT ![i] = @ + 1]
            /\ UNCHANGED pc
    /\ UNCHANGED <<content, posOf, mapped, locks, counter, phase, file, offset, poss,
                   todo, frame, sect, buf, out, calls, want>>

\* The second pass -----------------------------------------------------------
NextPos(t) ==
    /\ pc[t] = "nextpos"
    /\ counter' = counter + 1
    /\ IF counter >= NPos
       THEN Go(t, "done") /\ UNCHANGED <<poss, todo>>
       ELSE /\ poss' = [poss EXCEPT ![t] = counter]
            /\ todo' = [todo EXCEPT ![t] = FramesAt(counter)]
            /\ Go(t, "frame")
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, phase, file, offset, frame,
                   sect, buf, out, calls, want>>

\* The random access: the index is in the sorted frame numbers
Select(t) ==
    /\ pc[t] = "select"
    /\ LET fs == FramesAt(want[2]) IN
       /\ poss' = [poss EXCEPT ![t] = want[2]]
       /\ IF want[3] = 0
          THEN todo' = [todo EXCEPT ![t] = fs] /\ Go(t, "frame")
          ELSE IF want[3] <= Len(fs)
          THEN todo' = [todo EXCEPT ![t] = <<fs[want[3]]>>] /\ Go(t, "frame")
          ELSE todo' = [todo EXCEPT ![t] = <<>>] /\ Go(t, "done")   \* an exception
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, counter, phase, file, offset,
                   frame, sect, buf, out, calls, want>>

NextFrame(t) ==
    /\ pc[t] = "frame"
    /\ IF todo[t] = <<>>
       THEN /\ Go(t, IF t = Main THEN "done" ELSE "nextpos")
            /\ UNCHANGED <<todo, frame, sect, buf>>
       ELSE /\ frame' = [frame EXCEPT ![t] = Head(todo[t])]
            /\ todo' = [todo EXCEPT ![t] = Tail(todo[t])]
            /\ sect' = [sect EXCEPT ![t] = Sectors]
            /\ buf' = [buf EXCEPT ![t] = {}]
            /\ Go(t, "sector")
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, counter, phase, file, offset,
                   poss, out, calls, want>>

Location(t, s) == {e \in map : e[1] = <<poss[t], frame[t], s>>}

\* Take the sectors in order, lock the stream of the sector
TakeSector(t) ==
    /\ pc[t] = "sector"
    /\ IF sect[t] = {}
       THEN Go(t, "call") /\ UNCHANGED <<sect, file, offset, locks>>
       ELSE LET s == CHOOSE s \in sect[t] : \A u \in sect[t] : s <= u
                loc == Location(t, s) IN
            IF loc = {}
            THEN sect' = [sect EXCEPT ![t] = @ \ {s}] /\ UNCHANGED <<pc, file, offset, locks>>
            ELSE LET where == (CHOOSE e \in loc : TRUE)[2] IN
                 /\ locks[where[1]] = None
                 /\ locks' = [locks EXCEPT ![where[1]] = t]
                 /\ file' = [file EXCEPT ![t] = where[1]]
                 /\ offset' = [offset EXCEPT ![t] = where[2]]
                 /\ sect' = [sect EXCEPT ![t] = @ \ {s}]
                 /\ Go(t, "seek")
    /\ UNCHANGED <<content, posOf, map, mapped, at, counter, phase, poss, todo, frame,
                   buf, out, calls, want>>

Seek(t) ==
    /\ pc[t] = "seek"
    /\ at' = [at EXCEPT ![file[t]] = offset[t]]
    /\ Go(t, "read")
    /\ UNCHANGED <<content, posOf, map, mapped, locks, counter, phase, file, offset, poss,
                   todo, frame, sect, buf, out, calls, want>>

ReadData(t) ==
    /\ pc[t] = "read"
    /\ LET i == file[t] IN
       /\ buf' = [buf EXCEPT ![t] = @ \cup {<<content[i][at[i] + 1], Files[i]>>}]
       /\ at' = [at EXCEPT ![i] = @ + 1]
       /\ locks' = [locks EXCEPT ![i] = None]
    /\ Go(t, "sector")
    /\ UNCHANGED <<content, posOf, map, mapped, counter, phase, file, offset, poss, todo,
                   frame, sect, out, calls, want>>

Deliver(t) ==
    /\ pc[t] = "call"
    /\ out' = Append(out, [frame |-> frame[t], pos |-> poss[t], data |-> buf[t],
                           complete |-> Cardinality(buf[t]) = Cardinality(Sectors)])
    /\ Go(t, "frame")
    /\ UNCHANGED <<content, posOf, map, mapped, at, locks, counter, phase, file, offset,
                   poss, todo, frame, sect, buf, calls, want>>

Step(t) == NextFile(t) \/ ReadHeader(t) \/ NextPos(t) \/ Select(t) \/ NextFrame(t)
           \/ TakeSector(t) \/ Seek(t) \/ ReadData(t) \/ Deliver(t)
Call == CallReadAll \/ (\E p \in Positions, k \in 0..NFrames : CallLoad(p, k))
Next == Call \/ HeadersDone \/ Finish \/ (\E t \in Actors : Step(t))
Spec == Init /\ [][Next]_vars /\ WF_vars(HeadersDone) /\ WF_vars(Finish)
             /\ \A t \in Actors : WF_vars(Step(t)) /\ SF_vars(TakeSector(t))

-----------------------------------------------------------------------------
MapExact == mapped => {e[1] : e \in map} = {<<posOf[x[1]], x[1], x[2]>> : x \in Stored}
                      /\ \A e \in map : content[e[2][1]][e[2][2] + 1] = e[1][2]
LocksHeld == \A t, u \in Actors : pc[t] \in {"seek", "read"} /\ pc[u] \in {"seek", "read"}
                 /\ t # u => file[t] # file[u]
RightData == \A k \in 1..Len(out) : LET o == out[k] IN
                 /\ o.data = {<<o.frame, s>> : s \in Has(o.frame)}
                 /\ o.pos = posOf[o.frame]
                 /\ o.complete = (Has(o.frame) = Sectors)
ExactlyOnce == \A j, k \in 1..Len(out) : j # k => out[j].frame # out[k].frame
Delivered == {out[k].frame : k \in 1..Len(out)}
ReadAllDone == phase = "idle" /\ want # <<>> /\ want[1] = "all" => Delivered = FramesIn
\* What a random access returns depends on the files only
AllAt(p) == Sorted({f \in FramesIn : posOf[f] = p})
LoadDone == phase = "idle" /\ want # <<>> /\ want[1] = "load" =>
    [k \in 1..Len(out) |-> out[k].frame] =
        IF want[3] = 0 THEN AllAt(want[2])
        ELSE IF want[3] <= Len(AllAt(want[2])) THEN <<AllAt(want[2])[want[3]]>> ELSE <<>>
Returns == (phase # "idle") ~> (phase = "idle")

MC2x2 == <<0, 1>>
MC3x2 == <<0, 1, 1>>
=============================================================================
