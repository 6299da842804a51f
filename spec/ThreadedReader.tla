---------------------------- MODULE ThreadedReader ----------------------------
(***************************************************************************)
(* The design of SectorStreamThreadedReader::readAll (stempy/reader.h):    *)
(* worker threads take a stream from a priority queue (the one that was    *)
(* read the least), read one sector of it into the frame it belongs to,    *)
(* return the stream to the queue and pass the frames that they completed  *)
(* to the functor.                                                         *)
(*                                                                         *)
(* Each action is a step between two synchronization operations of the     *)
(* code. TLC checks, for all of the schedules of the threads, that no two  *)
(* threads use a stream or write a sector at the same time, that a frame   *)
(* buffer is never allocated twice, that every complete frame is delivered *)
(* exactly once with all of its sectors, and that all threads terminate.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Threads, Files, NFrames

Frames == 1..NFrames
NFiles == Len(Files)
Sectors == {Files[i] : i \in 1..NFiles}

FileSet == {s \in SeqOf(Frames, NFrames) : IsInjective(s)}

VARIABLES
    content,   \* the frames in each file
    at,        \* the number of records read of each file
    streams,   \* the open streams
    queue,     \* the streams in the queue, with their read count
    cache,     \* frame |-> [alloc, data, count] or Absent
    entry,     \* entry[t]: the identity of the cache entry the thread refers to
    nextId,
    heap,      \* the cache entries: id |-> [lock, alloc, data, count]
    pc, mine, cnt, frame, done, out

vars == <<content, at, streams, queue, cache, entry, nextId, heap, pc, mine, cnt,
          frame, done, out>>

Stored == UNION {{<<content[i][k], Files[i]>> : k \in 1..Len(content[i])} : i \in 1..NFiles}
Complete == {f \in Frames : \A s \in Sectors : <<f, s>> \in Stored}
None == 0

Init ==
    /\ content \in [1..NFiles -> FileSet]
    /\ FoldSeq(LAMBDA s, n : Len(s) + n, 0, content) = Cardinality(Stored)
    /\ at = [i \in 1..NFiles |-> 0]
    /\ streams = 1..NFiles
    /\ queue = {<<i, 0>> : i \in 1..NFiles}
    /\ cache = [f \in Frames |-> None]
    /\ heap = <<>> /\ nextId = 1
    /\ entry = [t \in Threads |-> None]
    /\ pc = [t \in Threads |-> "top"]
    /\ mine = [t \in Threads |-> None]
    /\ cnt = [t \in Threads |-> 0]
    /\ frame = [t \in Threads |-> None]
    /\ done = [t \in Threads |-> None]
    /\ out = <<>>

Go(t, p) == pc' = [pc EXCEPT ![t] = p]

Top(t) == /\ pc[t] = "top"
          /\ Go(t, IF streams = {} THEN "end" ELSE "pop")
          /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, heap, mine,
                         cnt, frame, done, out>>

Pop(t) ==
    /\ pc[t] = "pop"
    /\ IF queue = {}
       THEN Go(t, "top") /\ UNCHANGED <<queue, mine, cnt>>
       ELSE \E q \in queue :
              /\ \A r \in queue : q[2] <= r[2]
              /\ queue' = queue \ {q}
              /\ mine' = [mine EXCEPT ![t] = q[1]]
              /\ cnt' = [cnt EXCEPT ![t] = q[2]]
              /\ Go(t, "atend")
    /\ UNCHANGED <<content, at, streams, cache, entry, nextId, heap, frame, done, out>>

AtEnd(t) ==
    /\ pc[t] = "atend"
    /\ LET i == mine[t] IN
       IF at[i] = Len(content[i])
       THEN /\ streams' = streams \ {i} /\ mine' = [mine EXCEPT ![t] = None]
            /\ Go(t, "top") /\ UNCHANGED <<frame, at>>
       ELSE /\ frame' = [frame EXCEPT ![t] = content[i][at[i] + 1]]
            /\ at' = [at EXCEPT ![i] = @ + 1]
            /\ Go(t, "lookup") /\ UNCHANGED <<streams, mine>>
    /\ UNCHANGED <<content, queue, cache, entry, nextId, heap, cnt, done, out>>

\* Under the cache lock: find or create the entry of the frame
Lookup(t) ==
    /\ pc[t] = "lookup"
    /\ LET f == frame[t] IN
       IF cache[f] = None
       THEN /\ cache' = [cache EXCEPT ![f] = nextId]
            /\ heap' = Append(heap, [lock |-> None, alloc |-> 0, data |-> {}, count |-> 0])
            /\ entry' = [entry EXCEPT ![t] = nextId]
            /\ nextId' = nextId + 1
       ELSE /\ entry' = [entry EXCEPT ![t] = cache[f]]
            /\ UNCHANGED <<cache, heap, nextId>>
    /\ Go(t, "check1")
    /\ UNCHANGED <<content, at, streams, queue, mine, cnt, frame, done, out>>

\* The double checked allocation
Check1(t) == /\ pc[t] = "check1"
             /\ Go(t, IF heap[entry[t]].alloc > 0 THEN "write" ELSE "lock")
             /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, heap,
                            mine, cnt, frame, done, out>>
Lock(t) == /\ pc[t] = "lock" /\ heap[entry[t]].lock = None
           /\ heap' = [heap EXCEPT ![entry[t]].lock = t]
           /\ Go(t, "check2")
           /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, mine, cnt,
                          frame, done, out>>
Check2(t) ==
    /\ pc[t] = "check2"
    /\ heap' = IF heap[entry[t]].alloc > 0
               THEN [heap EXCEPT ![entry[t]].lock = None]
               ELSE [heap EXCEPT ![entry[t]] =
                       [@ EXCEPT !.lock = None, !.alloc = @ + 1, !.data = {}]]
    /\ Go(t, "write")
    /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, mine, cnt, frame,
                   done, out>>

WriteSector(t) ==
    /\ pc[t] = "write"
    /\ heap' = [heap EXCEPT ![entry[t]].data = @ \cup {Files[mine[t]]}]
    /\ Go(t, "count")
    /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, mine, cnt, frame,
                   done, out>>

\* ++sectorCount is atomic
Count(t) ==
    /\ pc[t] = "count"
    /\ heap' = [heap EXCEPT ![entry[t]].count = @ + 1]
    /\ Go(t, IF heap[entry[t]].count + 1 = Cardinality(Sectors) THEN "erase" ELSE "push")
    /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, mine, cnt, frame,
                   done, out>>

Erase(t) ==
    /\ pc[t] = "erase"
    /\ cache' = [cache EXCEPT ![frame[t]] = None]
    /\ done' = [done EXCEPT ![t] = entry[t]]
    /\ Go(t, "push")
    /\ UNCHANGED <<content, at, streams, queue, entry, nextId, heap, mine, cnt, frame, out>>

Push(t) ==
    /\ pc[t] = "push"
    /\ queue' = queue \cup {<<mine[t], cnt[t] + 1>>}
    /\ mine' = [mine EXCEPT ![t] = None]
    /\ cnt' = [cnt EXCEPT ![t] = 0]
    /\ entry' = [entry EXCEPT ![t] = None]
    /\ Go(t, IF done[t] # None THEN "call" ELSE "top")
    /\ UNCHANGED <<content, at, streams, cache, nextId, heap, frame, done, out>>

\* The functor gets the frame
Deliver(t) ==
    /\ pc[t] = "call"
    /\ out' = Append(out, [frame |-> frame[t], data |-> heap[done[t]].data])
    /\ done' = [done EXCEPT ![t] = None]
    /\ frame' = [frame EXCEPT ![t] = None]
    /\ Go(t, "top")
    /\ UNCHANGED <<content, at, streams, queue, cache, entry, nextId, heap, mine, cnt>>

Step(t) == Top(t) \/ Pop(t) \/ AtEnd(t) \/ Lookup(t) \/ Check1(t) \/ Lock(t) \/ Check2(t)
           \/ WriteSector(t) \/ Count(t) \/ Erase(t) \/ Push(t) \/ Deliver(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

-----------------------------------------------------------------------------
NoStreamShared == \A t, u \in Threads : t # u /\ mine[t] # None => mine[t] # mine[u]
HeldOrQueued == \A i \in streams :
    Cardinality({q \in queue : q[1] = i}) + Cardinality({t \in Threads : mine[t] = i}) = 1
AllocatedOnce == \A k \in 1..Len(heap) : heap[k].alloc <= 1
CountIsExact == \A k \in 1..Len(heap) : heap[k].count <= Cardinality(heap[k].data)
WholeFrames == \A k \in 1..Len(out) : out[k].data = Sectors
ExactlyOnce == \A j, k \in 1..Len(out) : j # k => out[j].frame # out[k].frame
OnlyComplete == \A k \in 1..Len(out) : out[k].frame \in Complete
AllDelivered == (\A t \in Threads : pc[t] = "end") =>
                   {out[k].frame : k \in 1..Len(out)} = Complete
Terminates == <>(\A t \in Threads : pc[t] = "end")

\* It refines the abstract reader, as far as complete frames are concerned
Abs == INSTANCE SectorReader WITH
    sectors <- Sectors, stored <- Stored,
    delivered <- {out[k].frame : k \in 1..Len(out)},
    reply <- IF out = <<>> THEN [kind |-> "None"]
             ELSE [kind |-> "Block", frame |-> out[Len(out)].frame,
                   has |-> out[Len(out)].data]
Refines == [][\E f \in Complete : Abs!Deliver(f)]_out

\* Model values
MC2x2 == <<0, 1>>
MC3x2 == <<0, 1, 1>>
SymThreads == Permutations(Threads)
=============================================================================
