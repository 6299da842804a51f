------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Calls of functions of the modules from several Python threads.          *)
(*                                                                         *)
(* A call takes a reference to its argument, releases the lock of the      *)
(* interpreter, lets workers compute (which take and drop references of    *)
(* their own, with the lock), waits for them, drops its reference and      *)
(* returns.  Counts of references are changed in two steps (a load and a   *)
(* store), and the last reference frees the object.                        *)
(*                                                                         *)
(* Discipline: "held"    - references are dropped with the lock            *)
(*             "dropped" - a call drops its reference before it has taken  *)
(*                         the lock again                                  *)
(*             "waits"   - a call waits for its workers with the lock      *)
(* What is to hold holds for the first one only.                           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Number, Workers, Calls, Discipline

NoOne == <<0, 0>>
Threads == (1..Number) \X {0}
Pools == (1..Number) \X (1..Workers)
Of(w) == <<w[1], 0>>
Agents == Threads \cup Pools

VARIABLES gil,    \* who has the lock of the interpreter
          pc, reg,
          refs,   \* the count of the references to the argument
          freed,
          left,   \* the number of calls of a thread that are left
          out     \* the results
vars == <<gil, pc, reg, refs, freed, left, out>>

Init == /\ gil = NoOne /\ refs = 1 /\ freed = FALSE
        /\ pc = [a \in Agents |-> IF a \in Threads THEN "idle" ELSE "off"]
        /\ reg = [a \in Agents |-> 0]
        /\ left = [t \in Threads |-> Calls]
        /\ out = [t \in Threads |-> {}]

Goto(a, p) == pc' = [pc EXCEPT ![a] = p]
Take(a) == gil = NoOne /\ gil' = a
Give(a) == gil = a /\ gil' = NoOne
Load(a) == reg' = [reg EXCEPT ![a] = refs]
Store(a, d) == refs' = reg[a] + d /\ freed' = (freed \/ reg[a] + d = 0)

Step(a, from, to) == pc[a] = from /\ Goto(a, to)

\* A thread: take the lock, a reference, and give the lock back
Enter(t) == /\ Step(t, "idle", "ref") /\ left[t] > 0 /\ Take(t)
            /\ UNCHANGED <<reg, refs, freed, left, out>>
RefLoad(a) == /\ Step(a, "ref", "ref2") /\ Load(a)
              /\ UNCHANGED <<gil, refs, freed, left, out>>
RefStore(a) == /\ Step(a, "ref2", IF a \in Threads THEN "release" ELSE "give") /\ Store(a, 1)
               /\ UNCHANGED <<gil, reg, left, out>>
Release(t) == /\ Step(t, "release", "work")
              /\ IF Discipline = "waits" THEN UNCHANGED gil ELSE Give(t)
              /\ UNCHANGED <<reg, refs, freed, left, out>>

\* Its workers
Begin(w) == /\ pc[w] = "off" /\ pc[Of(w)] = "work" /\ Take(w) /\ Goto(w, "ref")
            /\ UNCHANGED <<reg, refs, freed, left, out>>
GiveBack(w) == /\ Step(w, "give", "read") /\ Give(w)
               /\ UNCHANGED <<reg, refs, freed, left, out>>
Read(w) == /\ Step(w, "read", "drop")
           /\ out' = [out EXCEPT ![Of(w)] = @ \cup {IF freed THEN "garbage" ELSE "value"}]
           /\ UNCHANGED <<gil, reg, refs, freed, left>>
Again(w) == /\ Step(w, "drop", "unref") /\ Take(w)
            /\ UNCHANGED <<reg, refs, freed, left, out>>
UnrefLoad(a) == /\ Step(a, "unref", "unref2") /\ Load(a)
                /\ UNCHANGED <<gil, refs, freed, left, out>>
UnrefStore(a) == /\ Step(a, "unref2", IF a \in Threads /\ Discipline = "dropped"
                                      THEN "retake" ELSE "end")
                 /\ Store(a, -1)
                 /\ UNCHANGED <<gil, reg, left, out>>
Finish(w) == /\ Step(w, "end", "joined") /\ Give(w)
             /\ UNCHANGED <<reg, refs, freed, left, out>>

\* The end of the call
Join(t) == /\ pc[t] = "work" /\ \A i \in 1..Workers : pc[<<t[1], i>>] = "joined"
           /\ IF Discipline = "held" THEN Take(t) ELSE UNCHANGED gil
           /\ pc' = [a \in Agents |-> IF a = t THEN "unref"
                                      ELSE IF a \in Pools /\ Of(a) = t THEN "off" ELSE pc[a]]
           /\ UNCHANGED <<reg, refs, freed, left, out>>
Retake(t) == /\ Step(t, "retake", "end") /\ Take(t)
             /\ UNCHANGED <<reg, refs, freed, left, out>>
Return(t) == /\ Step(t, "end", "idle") /\ Give(t)
             /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<reg, refs, freed, out>>

Done == (\A t \in Threads : pc[t] = "idle" /\ left[t] = 0) /\ UNCHANGED vars

Thread(t) == Enter(t) \/ RefLoad(t) \/ RefStore(t) \/ Release(t) \/ Join(t) \/ UnrefLoad(t)
             \/ UnrefStore(t) \/ Retake(t) \/ Return(t)
Worker(w) == Begin(w) \/ RefLoad(w) \/ RefStore(w) \/ GiveBack(w) \/ Read(w) \/ Again(w)
             \/ UnrefLoad(w) \/ UnrefStore(w) \/ Finish(w)
Next == (\E t \in Threads : Thread(t)) \/ (\E w \in Pools : Worker(w)) \/ Done

\* The lock is granted in the end
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Thread(t))
        /\ \A w \in Pools : SF_vars(Worker(w))

Holders == Cardinality({t \in Threads : pc[t] \in {"release", "work", "unref", "unref2"}})
           + Cardinality({w \in Pools : pc[w] \in {"give", "read", "drop", "unref", "unref2"}})

\* The count is the number of the references: that of the owner and those of the calls
Counted == refs = 1 + Holders
NotFreed == ~freed
Results == \A t \in Threads : out[t] \subseteq {"value"}
Ends == <>(\A t \in Threads : pc[t] = "idle" /\ left[t] = 0)
=============================================================================
