----------------------------- MODULE Distributed -----------------------------
(***************************************************************************)
(* The design of counting with several processes (stempy/reader_mpi.cpp,   *)
(* electron_mpi.cpp and the parts of reader.h and electron.cpp for MPI):   *)
(* every process reads the headers of its files, and all of them exchange  *)
(* the locations that they found. Then every process reads the frames of   *)
(* its scan positions and keeps its share of the sample frames; rank 0     *)
(* collects the samples, calculates the thresholds and sends them; every   *)
(* process counts its frames; and rank 0 collects the events.              *)
(*                                                                         *)
(* The processes run by themselves. A message is a set that one process    *)
(* has posted and another one waits for. If a process fails, the whole job *)
(* does. The same reader is used for Runs counts.                          *)
(*                                                                         *)
(* TLC checks for all placements of sectors in files, positions of frames, *)
(* lost sectors and interleavings that rank 0 gets every frame exactly     *)
(* once, all of them counted with the same thresholds, that the samples    *)
(* are as many complete frames as were asked for, and that the job ends:   *)
(* it fails only if some process has fewer complete frames than its share, *)
(* or without thresholds.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS NRanks, NFiles, NFrames, NPositions, NSectors,
          Blocks,       \* the number of sample frames
          Runs

Ranks == 0..(NRanks - 1)
Frames == 1..NFrames
Sectors == 1..NSectors
None == 0

VARIABLES
    file,      \* <<frame, sector>> |-> its file (0: lost)
    position,  \* frame |-> position (from 0)
    canFit,
    pc,        \* of each rank
    run,       \* the number of the count of each rank
    map,       \* rank |-> the locations <<frame, sector, file>> it knows
    postedMap, \* rank |-> whether it has sent its locations
    pending,   \* rank |-> frames it has to read
    samples, incomplete, \* rank |-> frames it keeps
    sent,      \* <<rank, run>> |-> samples sent to rank 0 (or {} if not yet)
    isSent,    \* the pairs <<rank, run>> of sent
    used,      \* run |-> samples of the thresholds
    thresholds,\* run |-> posted by rank 0 (None: not yet)
    mine,      \* rank |-> the thresholds it has for this run (None: not yet)
    events,    \* rank |-> sequence of [frame, th] that it has counted
    final,     \* <<rank, run>> |-> events sent to rank 0
    isFinal,
    result     \* run |-> what rank 0 has in the end

input == <<file, position, canFit>>
vars == <<file, position, canFit, pc, run, map, postedMap, pending, samples, incomplete, sent,
          isSent, used, thresholds, mine, events, final, isFinal, result>>

\* Contiguous parts, the last rank gets the rest
From(r, n) == r * (n \div NRanks)
Count(r, n) == IF r = NRanks - 1 THEN n - From(r, n) ELSE n \div NRanks
Part(r, n) == From(r, n)..(From(r, n) + Count(r, n) - 1)
Share(r) == Count(r, Blocks)

Present(f) == {s \in Sectors : file[<<f, s>>] # 0}
Exists(f) == Present(f) # {}
Complete(f) == Present(f) = Sectors
All == {f \in Frames : Exists(f)}
CompleteOf(r) == {f \in Frames : Complete(f) /\ position[f] \in Part(r, NPositions)}

Init ==
    /\ file \in [Frames \X Sectors -> 0..NFiles]
    /\ \A f \in Frames : \A s \in Sectors :
          \* A file has one of the sectors
          file[<<f, s>>] # 0 => (file[<<f, s>>] % NSectors) + 1 = s
    /\ position \in [Frames -> 0..(NPositions - 1)]
    /\ \A f \in 1..(NFrames - 1) : position[f] <= position[f + 1]
    /\ canFit \in BOOLEAN
    /\ pc = [r \in Ranks |-> "headers"] /\ run = [r \in Ranks |-> 1]
    /\ map = [r \in Ranks |-> {}] /\ postedMap = [r \in Ranks |-> FALSE]
    /\ pending = [r \in Ranks |-> {}]
    /\ samples = [r \in Ranks |-> {}] /\ incomplete = [r \in Ranks |-> {}]
    /\ sent = [x \in Ranks \X (1..Runs) |-> {}] /\ isSent = {}
    /\ used = [k \in 1..Runs |-> {}] /\ thresholds = [k \in 1..Runs |-> None]
    /\ mine = [r \in Ranks |-> None] /\ events = [r \in Ranks |-> <<>>]
    /\ final = [x \in Ranks \X (1..Runs) |-> <<>>] /\ isFinal = {}
    /\ result = [k \in 1..Runs |-> <<>>]

Failed == \E r \in Ranks : pc[r] \in {"tooFew", "noFit"}
Running == ~Failed
Go(r, p) == pc' = [pc EXCEPT ![r] = p]
\* The frames of the positions of r that it knows of
Own(r) == {f \in Frames : /\ position[f] \in Part(r, NPositions)
                          /\ \E x \in map[r] : x[1] = f}
Knows(r, f) == {x[2] : x \in {y \in map[r] : y[1] = f}}

Headers(r) ==
    /\ Running /\ pc[r] = "headers"
    /\ map' = [map EXCEPT ![r] = {<<f, s, file[<<f, s>>]>> : f \in Frames, s \in Sectors}
                                 \cap (Frames \X Sectors \X {x + 1 : x \in Part(r, NFiles)})]
    /\ postedMap' = [postedMap EXCEPT ![r] = TRUE]
    /\ Go(r, "maps")
    /\ UNCHANGED <<input, run, pending, samples, incomplete, sent, isSent, used, thresholds,
                   mine, events, final, isFinal, result>>
\* The exchange of the locations ends when all processes take part
Maps(r) ==
    /\ Running /\ pc[r] = "maps" /\ \A q \in Ranks : postedMap[q]
    /\ map' = [map EXCEPT ![r] = UNION {{<<f, s, file[<<f, s>>]>> : f \in Frames, s \in Sectors}
                                 \cap (Frames \X Sectors \X {x + 1 : x \in Part(q, NFiles)}) :
                                 q \in Ranks}]
    /\ Go(r, "start")
    /\ UNCHANGED <<input, run, postedMap, pending, samples, incomplete, sent, isSent, used,
                   thresholds, mine, events, final, isFinal, result>>
Start(r) ==
    /\ Running /\ pc[r] = "start"
    /\ pending' = [pending EXCEPT ![r] = Own(r)]
    /\ samples' = [samples EXCEPT ![r] = {}] /\ incomplete' = [incomplete EXCEPT ![r] = {}]
    /\ events' = [events EXCEPT ![r] = <<>>] /\ mine' = [mine EXCEPT ![r] = None]
    /\ Go(r, "sample")
    /\ UNCHANGED <<input, run, map, postedMap, sent, isSent, used, thresholds, final, isFinal,
                   result>>
\* Its share of the samples; incomplete frames are kept for later. (The threads of a process
\* are those of ElectronCount.)
Take(r) ==
    /\ Running /\ pc[r] = "sample" /\ Cardinality(samples[r]) < Share(r)
    /\ IF pending[r] = {} THEN Go(r, "tooFew") /\ UNCHANGED <<pending, samples, incomplete>>
       ELSE \E f \in pending[r] :
              /\ pending' = [pending EXCEPT ![r] = @ \ {f}]
              /\ IF Knows(r, f) = Sectors
                 THEN samples' = [samples EXCEPT ![r] = @ \cup {f}] /\ UNCHANGED incomplete
                 ELSE incomplete' = [incomplete EXCEPT ![r] = @ \cup {f}] /\ UNCHANGED samples
              /\ UNCHANGED pc
    /\ UNCHANGED <<input, run, map, postedMap, sent, isSent, used, thresholds, mine, events,
                   final, isFinal, result>>
SendSamples(r) ==
    /\ Running /\ pc[r] = "sample" /\ Cardinality(samples[r]) = Share(r)
    /\ sent' = [sent EXCEPT ![<<r, run[r]>>] = samples[r]]
    /\ isSent' = isSent \cup {<<r, run[r]>>}
    /\ Go(r, IF r = 0 THEN "collect" ELSE "thresholds")
    /\ UNCHANGED <<input, run, map, postedMap, pending, samples, incomplete, used, thresholds,
                   mine, events, final, isFinal, result>>
\* Rank 0
Fit ==
    /\ Running /\ pc[0] = "collect" /\ \A q \in Ranks : <<q, run[0]>> \in isSent
    /\ used' = [used EXCEPT ![run[0]] = UNION {sent[<<q, run[0]>>] : q \in Ranks}]
    /\ IF canFit THEN thresholds' = [thresholds EXCEPT ![run[0]] = run[0]] /\ Go(0, "thresholds")
       ELSE Go(0, "noFit") /\ UNCHANGED thresholds
    /\ UNCHANGED <<input, run, map, postedMap, pending, samples, incomplete, sent, isSent, mine,
                   events, final, isFinal, result>>
Thresholds(r) ==
    /\ Running /\ pc[r] = "thresholds" /\ thresholds[run[r]] # None
    /\ mine' = [mine EXCEPT ![r] = thresholds[run[r]]]
    \* Only its own samples, even if it is rank 0
    /\ pending' = [pending EXCEPT ![r] = @ \cup samples[r] \cup incomplete[r]]
    /\ Go(r, "count")
    /\ UNCHANGED <<input, run, map, postedMap, samples, incomplete, sent, isSent, used,
                   thresholds, events, final, isFinal, result>>
CountFrame(r) ==
    /\ Running /\ pc[r] = "count" /\ pending[r] # {}
    /\ \E f \in pending[r] :
          /\ pending' = [pending EXCEPT ![r] = @ \ {f}]
          /\ events' = [events EXCEPT ![r] = Append(@, [frame |-> f, th |-> mine[r]])]
    /\ UNCHANGED <<input, pc, run, map, postedMap, samples, incomplete, sent, isSent, used,
                   thresholds, mine, final, isFinal, result>>
\* The other ranks send their events and go on with their next count
SendEvents(r) ==
    /\ Running /\ r # 0 /\ pc[r] = "count" /\ pending[r] = {}
    /\ final' = [final EXCEPT ![<<r, run[r]>>] = events[r]]
    /\ isFinal' = isFinal \cup {<<r, run[r]>>}
    /\ IF run[r] < Runs THEN run' = [run EXCEPT ![r] = @ + 1] /\ Go(r, "start")
       ELSE Go(r, "done") /\ UNCHANGED run
    /\ UNCHANGED <<input, map, postedMap, pending, samples, incomplete, sent, isSent, used,
                   thresholds, mine, events, result>>
RECURSIVE Join(_, _)
Join(r, k) == IF r = NRanks THEN <<>> ELSE final[<<r, k>>] \o Join(r + 1, k)
Collect ==
    /\ Running /\ pc[0] = "count" /\ pending[0] = {}
    /\ \A q \in Ranks \ {0} : <<q, run[0]>> \in isFinal
    /\ result' = [result EXCEPT ![run[0]] = events[0] \o Join(1, run[0])]
    /\ IF run[0] < Runs THEN run' = [run EXCEPT ![0] = @ + 1] /\ Go(0, "start")
       ELSE Go(0, "done") /\ UNCHANGED run
    /\ UNCHANGED <<input, map, postedMap, pending, samples, incomplete, sent, isSent, used,
                   thresholds, mine, events, final, isFinal>>

Step(r) == \/ Headers(r) \/ Maps(r) \/ Start(r) \/ Take(r) \/ SendSamples(r) \/ Thresholds(r)
           \/ CountFrame(r) \/ SendEvents(r)
Ended == Failed \/ \A r \in Ranks : pc[r] = "done"
Next == Fit \/ Collect \/ (\E r \in Ranks : Step(r)) \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Fit \/ Collect \/ (\E r \in Ranks : Step(r)))

-----------------------------------------------------------------------------
\* Every file, position and sample belongs to exactly one rank
Partitions == \A n \in {NFiles, NPositions, Blocks} :
    /\ UNION {Part(r, n) : r \in Ranks} = 0..(n - 1)
    /\ \A r, q \in Ranks : r # q => Part(r, n) \cap Part(q, n) = {}

\* What rank 0 returns, and that all processes have counted with the same thresholds
Right == \A k \in 1..Runs : (pc[0] = "done" \/ run[0] > k) =>
    /\ Len(result[k]) = Cardinality(All)
    /\ {result[k][i].frame : i \in 1..Len(result[k])} = All
    /\ \A i \in 1..Len(result[k]) : result[k][i].th = thresholds[k]
RightSamples == \A k \in 1..Runs : thresholds[k] # None =>
    /\ Cardinality(used[k]) = Blocks
    /\ \A f \in used[k] : Complete(f)
\* It fails only for a reason
Reason == Failed => \/ ~canFit
                    \/ \E r \in Ranks : Cardinality(CompleteOf(r)) < Share(r)
NoResultOnFailure == Cardinality({f \in Frames : Complete(f)}) < Blocks => pc[0] # "done"
NoDeadlock == (~ENABLED (Fit \/ Collect \/ (\E r \in Ranks : Step(r)))) => Ended
Ends == <>Ended
=============================================================================
