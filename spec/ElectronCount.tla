---------------------------- MODULE ElectronCount ----------------------------
(***************************************************************************)
(* The design of electronCount(reader, options) (stempy/electron.cpp): the *)
(* workers of a reader call the counter with one frame each; the main      *)
(* thread waits for the sample frames, calculates the thresholds and       *)
(* releases the workers, counts the sample frames and the incomplete ones  *)
(* that came before, and waits for the end of the reader.                  *)
(*                                                                         *)
(* Each action is a step between two synchronization operations. TLC       *)
(* checks, for all schedules and all orders of the frames, that every      *)
(* frame is counted exactly once and with the final thresholds, that no    *)
(* two threads change the events of a position at the same time, and that  *)
(* it terminates: with the result if there are enough complete frames and  *)
(* the thresholds can be calculated, otherwise with an error.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Workers, NFrames, NPositions,
          Needed        \* the number of sample frames (threshold_num_blocks)

Frames == 1..NFrames
None == 0
Nobody == "nobody"

VARIABLES
    complete,    \* frame |-> whether it is
    position,    \* frame |-> its scan position
    canFit,      \* whether the thresholds can be calculated
    pending,     \* frames that the reader has not yet passed to the counter
    pc, mine,    \* of the workers
    mutex,       \* the owner of sampleMutex (0: none, "main", a worker)
    samples, incomplete, counting, aborted, allRead,
    main, todo,  \* the state of the main thread and what it has to count
    events,      \* position |-> sequence of frames
    writer       \* position |-> owner of its mutex

vars == <<complete, position, canFit, pending, pc, mine, mutex, samples, incomplete,
          counting, aborted, allRead, main, todo, events, writer>>
input == <<complete, position, canFit>>

Init ==
    /\ complete \in [Frames -> BOOLEAN]
    /\ position \in {p \in [Frames -> 1..NPositions] :
                        \A f \in Frames : p[f] <= f}
    /\ canFit \in BOOLEAN
    /\ pending = Frames
    /\ pc = [w \in Workers |-> "idle"] /\ mine = [w \in Workers |-> None]
    /\ mutex = Nobody
    /\ samples = <<>> /\ incomplete = <<>>
    /\ counting = FALSE /\ aborted = FALSE /\ allRead = FALSE
    /\ main = "wait" /\ todo = <<>>
    /\ events = [p \in 1..NPositions |-> <<>>]
    /\ writer = [p \in 1..NPositions |-> Nobody]

Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Drop(w) == /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ mine' = [mine EXCEPT ![w] = None]

\* The reader passes a frame to the counter, which looks at the flag first
Take(w) ==
    /\ pc[w] = "idle" /\ pending # {}
    /\ \E f \in pending : pending' = pending \ {f} /\ mine' = [mine EXCEPT ![w] = f]
    /\ Go(w, "look")
    /\ UNCHANGED <<input, mutex, samples, incomplete, counting, aborted, allRead, main, todo,
                   events, writer>>
Look(w) ==
    /\ pc[w] = "look"
    /\ Go(w, IF counting THEN "count" ELSE "lock")
    /\ UNCHANGED <<input, pending, mine, mutex, samples, incomplete, counting, aborted,
                   allRead, main, todo, events, writer>>
\* With the mutex: keep the frame, or wait
Lock(w) ==
    /\ pc[w] = "lock" /\ mutex = Nobody
    /\ IF Len(samples) < Needed
       THEN /\ Drop(w)
            /\ IF complete[mine[w]]
               THEN samples' = Append(samples, mine[w]) /\ UNCHANGED incomplete
               ELSE incomplete' = Append(incomplete, mine[w]) /\ UNCHANGED samples
       ELSE Go(w, "waiting") /\ UNCHANGED <<mine, samples, incomplete>>
    /\ UNCHANGED <<input, pending, mutex, counting, aborted, allRead, main, todo, events,
                   writer>>
\* The condition variable; the mutex is held when the predicate is evaluated
Wake(w) ==
    /\ pc[w] = "waiting" /\ mutex = Nobody
    /\ counting \/ aborted
    /\ IF aborted THEN Drop(w) ELSE Go(w, "count") /\ UNCHANGED mine
    /\ UNCHANGED <<input, pending, mutex, samples, incomplete, counting, aborted, allRead,
                   main, todo, events, writer>>
\* The events of the position, in its mutex
Enter(w) ==
    /\ pc[w] = "count" /\ writer[position[mine[w]]] = Nobody
    /\ writer' = [writer EXCEPT ![position[mine[w]]] = w]
    /\ Go(w, "write")
    /\ UNCHANGED <<input, pending, mine, mutex, samples, incomplete, counting, aborted,
                   allRead, main, todo, events>>
Write(w) ==
    /\ pc[w] = "write"
    /\ LET p == position[mine[w]] IN
       /\ events' = [events EXCEPT ![p] = Append(@, mine[w])]
       /\ writer' = [writer EXCEPT ![p] = Nobody]
    /\ Drop(w)
    /\ UNCHANGED <<input, pending, mutex, samples, incomplete, counting, aborted, allRead,
                   main, todo>>

\* The reader is done once all of the workers are
Finish ==
    /\ ~allRead /\ pending = {} /\ \A w \in Workers : pc[w] = "idle"
    /\ mutex = Nobody
    /\ allRead' = TRUE
    /\ UNCHANGED <<input, pending, pc, mine, mutex, samples, incomplete, counting, aborted,
                   main, todo, events, writer>>

\* The main thread
Have == Len(samples) = Needed
MainWait ==
    /\ main = "wait" /\ mutex = Nobody /\ (Have \/ allRead)
    /\ IF Have THEN main' = "fit" /\ mutex' = "main" ELSE main' = "tooFew" /\ UNCHANGED mutex
    /\ UNCHANGED <<input, pending, pc, mine, samples, incomplete, counting, aborted, allRead,
                   todo, events, writer>>
MainFit ==
    /\ main = "fit"
    /\ mutex' = Nobody
    /\ IF canFit
       THEN /\ counting' = TRUE /\ main' = "count" /\ todo' = samples \o incomplete
            /\ UNCHANGED aborted
       ELSE aborted' = TRUE /\ main' = "abort" /\ UNCHANGED <<counting, todo>>
    /\ UNCHANGED <<input, pending, pc, mine, samples, incomplete, allRead, events, writer>>
MainEnter ==
    /\ main = "count" /\ todo # <<>> /\ writer[position[todo[1]]] = Nobody
    /\ writer' = [writer EXCEPT ![position[todo[1]]] = "main"]
    /\ main' = "write"
    /\ UNCHANGED <<input, pending, pc, mine, mutex, samples, incomplete, counting, aborted,
                   allRead, todo, events>>
MainWrite ==
    /\ main = "write"
    /\ LET p == position[todo[1]] IN
       /\ events' = [events EXCEPT ![p] = Append(@, todo[1])]
       /\ writer' = [writer EXCEPT ![p] = Nobody]
    /\ todo' = Tail(todo) /\ main' = "count"
    /\ UNCHANGED <<input, pending, pc, mine, mutex, samples, incomplete, counting, aborted,
                   allRead>>
MainJoin ==
    /\ main = "abort" \/ (main = "count" /\ todo = <<>>)
    /\ allRead
    /\ main' = IF main = "abort" THEN "noFit" ELSE "result"
    /\ UNCHANGED <<input, pending, pc, mine, mutex, samples, incomplete, counting, aborted,
                   allRead, todo, events, writer>>

Step(w) == Take(w) \/ Look(w) \/ Lock(w) \/ Wake(w) \/ Enter(w) \/ Write(w)
Main == MainWait \/ MainFit \/ MainEnter \/ MainWrite \/ MainJoin
Next == (\E w \in Workers : Step(w)) \/ Finish \/ Main
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Finish)
        /\ \A w \in Workers : WF_vars(Step(w))

-----------------------------------------------------------------------------
NComplete == Cardinality({f \in Frames : complete[f]})
Over == {"result", "tooFew", "noFit"}

\* The abstract view: the result has every frame once, at its position
RightResult == main = "result" =>
    /\ \A p \in 1..NPositions :
          /\ {events[p][k] : k \in 1..Len(events[p])} = {f \in Frames : position[f] = p}
          /\ Len(events[p]) = Cardinality({f \in Frames : position[f] = p})
    /\ pending = {} /\ \A w \in Workers : pc[w] = "idle"
RightEnd == /\ main = "result" => NComplete >= Needed /\ canFit
            /\ main = "tooFew" => NComplete < Needed
            /\ main = "noFit" => NComplete >= Needed /\ ~canFit
\* An error leaves no thread behind that could use what is gone
NobodyLeft == main \in Over => pending = {} /\ \A w \in Workers : pc[w] = "idle"
OnlyComplete == \A k \in 1..Len(samples) : complete[samples[k]]
\* Nobody counts before the thresholds are final
CountsLast == (\E w \in Workers : pc[w] \in {"count", "write"}) => counting /\ main # "fit"
AtMostOnce == \A p, q \in 1..NPositions : \A j \in 1..Len(events[p]), k \in 1..Len(events[q]) :
    events[p][j] = events[q][k] => p = q /\ j = k
Terminates == <>(main \in Over)
SymWorkers == Permutations(Workers)
=============================================================================
