---------------------------- MODULE CountFilesMC ----------------------------
(***************************************************************************)
(* How files are loaded, step by step (crop the flyback column, separate   *)
(* repeated pixels, put the frames at their positions), and written and    *)
(* loaded again. It refines Load and Encode of CountFiles.                 *)
(***************************************************************************)
EXTENDS CountFiles, TLC
CONSTANTS Scans, NPixels, MaxRows, MaxPer, MaxLen

VARIABLES file, keep, stage, scan, rows, poss, data, rounds
vars == <<file, keep, stage, scan, rows, poss, data, rounds>>

Sub == {Sorted(s) : s \in SUBSET (0..(NPixels - 1))}
Multi == UNION {{s \in [1..n -> 0..(NPixels - 1)] : \A i \in 1..(n - 1) : s[i] <= s[i + 1]} :
                n \in 0..MaxLen}
F(v, s, ps, fs) == [version |-> v, scan |-> s, frame |-> <<1, NPixels>>, positions |-> ps,
                    frames |-> fs, meta |-> "m"]
Ids(n) == [k \in 1..n |-> k - 1]
Files == UNION {
    LET n == Prod(s) IN
    {F(1, s, Ids(n), fs) : fs \in [1..n -> Multi]} \cup
    UNION {{F(2, s, ps, fs) : ps \in [1..r -> 0..(n - 1)], fs \in [1..r -> Sub]} : r \in 1..MaxRows} \cup
    UNION {{F(3, s, Ids(n), fs) : fs \in [1..(n * k) -> Sub]} : k \in 1..MaxPer} : s \in Scans}

Init == /\ file \in {f \in Files : WellFormedFile(f)}
        /\ keep \in BOOLEAN
        /\ (~keep => file.scan[2] > 1 /\ \E k \in 1..Len(file.frames) :
                        PositionOf(file, k) % file.scan[2] # file.scan[2] - 1)
        /\ stage = "read" /\ scan = <<>> /\ rows = <<>> /\ poss = <<>> /\ data = <<>>
        /\ rounds = 0

Read ==
    /\ stage = "read"
    /\ LET w == file.scan[2]
           h == file.scan[1]
           num == PerPosition(file)
           c == w - 1
           good == SelectSeq(Ids(Len(file.frames)), LAMBDA k : file.positions[k + 1] % w # w - 1)
       IN IF keep THEN /\ rows' = file.frames /\ poss' = file.positions /\ scan' = file.scan
          ELSE /\ scan' = <<h, c>>
               /\ IF file.version < 3
                  THEN /\ rows' = [i \in 1..Len(good) |-> file.frames[good[i] + 1]]
                       /\ poss' = [i \in 1..Len(good) |->
                                     LET p == file.positions[good[i] + 1] IN p - (p \div w)]
                  ELSE \* line by line
                       /\ rows' = [i \in 1..(h * c * num) |->
                                     LET line == (i - 1) \div (c * num)
                                     IN file.frames[i + (line * num)]]
                       /\ poss' = Ids(h * c)
    /\ stage' = IF file.version = 3 THEN "group" ELSE "separate"
    /\ UNCHANGED <<file, keep, data, rounds>>

Separate ==
    /\ stage = "separate"
    /\ IF file.version = 2 \/ Len(rows) > Prod(scan) \/ \A k \in 1..Len(rows) : ~Repeats(rows[k])
       THEN UNCHANGED <<rows, poss>>
       ELSE LET extra == FlattenSeq([i \in 1..Len(rows) |->
                              [n \in 1..(Len(Levels(rows[i])) - 1) |->
                                  <<i, Level(rows[i], n)>>]])
            IN /\ rows' = [i \in 1..Len(rows) |-> Level(rows[i], 0)] \o
                          [k \in 1..Len(extra) |-> extra[k][2]]
               /\ poss' = Ids(Len(rows)) \o [k \in 1..Len(extra) |-> extra[k][1] - 1]
    /\ stage' = "place"
    /\ UNCHANGED <<file, keep, scan, data, rounds>>

\* Each row goes to the first free frame of its position
Place ==
    /\ stage = "place"
    /\ LET per == Max({Cardinality({k \in 1..Len(poss) : poss[k] = p}) : p \in Range(poss)})
           None == <<-1>>
           Put(d, k) == LET p == poss[k] + 1
                            i == Min({i \in 1..per : d[p][i] = None})
                        IN [d EXCEPT ![p][i] = rows[k]]
           full == FoldLeft(Put, [p \in 1..Prod(scan) |-> [i \in 1..per |-> None]],
                            [k \in 1..Len(rows) |-> k])
       IN data' = [p \in 1..Prod(scan) |->
                     [i \in 1..per |-> IF full[p][i] = None THEN <<>> ELSE full[p][i]]]
    /\ stage' = "loaded"
    /\ UNCHANGED <<file, keep, scan, rows, poss, rounds>>

Group ==
    /\ stage = "group"
    /\ LET n == Len(rows) \div Prod(scan)
       IN data' = [p \in 1..Prod(scan) |-> [k \in 1..n |-> rows[((p - 1) * n) + k]]]
    /\ stage' = "loaded"
    /\ UNCHANGED <<file, keep, scan, rows, poss, rounds>>

\* Write what was loaded and start again
Write ==
    /\ stage = "loaded" /\ rounds = 0 /\ rounds' = 1
    /\ file' = Encode([scan |-> scan, frame |-> file.frame, data |-> data], file.meta)
    /\ keep' = TRUE
    /\ stage' = "read"
    /\ UNCHANGED <<scan, rows, poss, data>>

Next == Read \/ Separate \/ Place \/ Group \/ Write
Spec == Init /\ [][Next]_vars

\* Loading is what the file says
Refines == stage = "loaded" =>
    LET x == Load(file, keep)
    IN /\ scan = x.scan
       /\ SameFrames(data, x.data)
       /\ Represents(data, scan, file.frame)

\* Writing and loading is the identity
RoundTrip == stage = "read" /\ rounds = 1 =>
    /\ WellFormedFile(file)
    /\ Load(file, TRUE) = [scan |-> scan, frame |-> file.frame, data |-> data]

\* The flyback column is the last one of the dense array
Sel(x) == [kind |-> "slice", v |-> x]
NoFlyback == stage = "read" /\ ~keep =>
    LET a == Load(file, TRUE)
        b == Load(file, FALSE)
        dense(x) == [scan |-> x.scan, frame |-> x.frame, nz |-> Meaning(x.data)]
        s == Slice(dense(a), <<[kind |-> "all"], Sel(<<<<>>, <<-1>>, <<>>>>)>>, <<>>)
    IN s.scan = b.scan /\ s.nz = Meaning(b.data)

\* Every electron of the file is there: the counts are the numbers of repetitions
Complete == stage = "read" =>
    LET a == Load(file, TRUE)
    IN \A p \in 0..(Prod(file.scan) - 1), q \in 0..(NPixels - 1) :
         LET n == FoldLeft(LAMBDA acc, k : acc + Times(file.frames[k], q), 0, At(file, p))
         IN IF n = 0 THEN \A t \in Meaning(a.data) : t[1] # p \/ t[2] # q
            ELSE <<p, q, n>> \in Meaning(a.data)

ScansQuick == {<<1, 2>>, <<2, 1>>, <<2, 2>>}
ScansRows == {<<1, 2>>, <<2, 1>>, <<1, 3>>}
ScansThorough == {<<1, 2>>, <<2, 2>>, <<1, 3>>, <<2, 1>>}
=============================================================================
