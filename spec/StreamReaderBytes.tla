-------------------------- MODULE StreamReaderBytes --------------------------
(***************************************************************************)
(* How stempy/reader.cpp implements StreamReader: a stream over the bytes  *)
(* of the files with a position, an open flag and steps that correspond to *)
(* peek(), openNextFile(), readHeaderVersionN() and the read of the data.  *)
(* TLC checks, for every sequence of files within the constants and every  *)
(* sequence of calls, that it refines StreamReader.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS H,          \* bytes of a header
          BodySizes,  \* the possible sizes of the data of a block
          MaxFiles, MaxBlocks, MaxCalls

FileSet == { [body |-> b, cut |-> c] :
             b \in SeqOf(BodySizes, MaxBlocks), c \in 0 .. (H + 2) }
\* cut: the number of bytes missing at the end of the last block
Valid(f) == IF f.body = <<>> THEN f.cut = 0
            ELSE f.cut < H + f.body[Len(f.body)]

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Bytes(f) == Sum([k \in 1..Len(f.body) |-> H + f.body[k]]) - f.cut
StartOf(f, k) == Sum([j \in 1..(k - 1) |-> H + f.body[j]])
Flat(fs) == FlattenSeq([i \in 1..Len(fs) |->
              [k \in 1..Len(fs[i].body) |->
                 [whole |-> k < Len(fs[i].body) \/ fs[i].cut = 0]]])

VARIABLES files, idx, open, pos, pc, from, reply, calls
vars == <<files, idx, open, pos, pc, from, reply, calls>>

Blk(i)  == [kind |-> "Block", i |-> i]
ErrR(i) == [kind |-> "Error", i |-> i]
EndR    == [kind |-> "End", i |-> 0]
Nothing == [kind |-> "None", i |-> 0]

\* The number of blocks before position p of file i
Before(i, p) ==
    Len(Flat(SubSeq(files, 1, i - 1))) +
    (IF i > Len(files) THEN 0
     ELSE Cardinality({k \in 1..Len(files[i].body) : StartOf(files[i], k) < p}))

Init == /\ files \in {fs \in SeqOf({f \in FileSet : Valid(f)}, MaxFiles) : fs # <<>>}
        /\ idx = 1 /\ open = TRUE /\ pos = 0
        /\ pc = "idle" /\ from = 0 /\ reply = Nothing /\ calls = 0

Call == /\ pc = "idle" /\ calls < MaxCalls
        /\ pc' = "peek" /\ calls' = calls + 1
        /\ from' = Before(idx, pos)
        /\ UNCHANGED <<files, idx, open, pos, reply>>

Return(r) == pc' = "idle" /\ reply' = r /\ from' = 0

\* if (atEnd()) return Block(); if (peek() == EOF) openNextFile()
Peek ==
    /\ pc = "peek"
    /\ IF idx > Len(files)
       THEN Return(EndR) /\ UNCHANGED <<idx, open, pos>>
       ELSE IF ~open
       THEN open' = TRUE /\ pos' = 0 /\ UNCHANGED <<idx, pc, reply, from>>
       ELSE IF pos >= Bytes(files[idx])
       THEN /\ idx' = idx + 1
            /\ open' = (idx + 1 <= Len(files))
            /\ pos' = 0
            /\ UNCHANGED <<pc, reply, from>>
       ELSE pc' = "header" /\ UNCHANGED <<idx, open, pos, reply, from>>
    /\ UNCHANGED <<files, calls>>

ReadHeader ==
    /\ pc = "header"
    /\ IF Bytes(files[idx]) - pos < H
       THEN pos' = Bytes(files[idx]) /\ Return(ErrR(from + 1))
       ELSE pos' = pos + H /\ pc' = "body" /\ UNCHANGED <<reply, from>>
    /\ UNCHANGED <<files, idx, open, calls>>

ReadBody ==
    /\ pc = "body"
    /\ LET f == files[idx]
           k == CHOOSE k \in 1..Len(f.body) : StartOf(f, k) + H = pos
       IN IF Bytes(f) - pos < f.body[k]
          THEN pos' = Bytes(f) /\ Return(ErrR(from + 1))
          ELSE pos' = pos + f.body[k] /\ Return(Blk(from + 1))
    /\ UNCHANGED <<files, idx, open, calls>>

Reset == /\ pc = "idle" /\ calls < MaxCalls
         /\ calls' = calls + 1
         /\ idx' = 1 /\ open' = FALSE /\ pos' = 0 /\ reply' = Nothing
         /\ UNCHANGED <<files, pc, from>>

Next == Call \/ Peek \/ ReadHeader \/ ReadBody \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Peek \/ ReadHeader \/ ReadBody)

Abs == INSTANCE StreamReader WITH
         flat <- Flat(files),
         n <- IF pc = "idle" THEN Before(idx, pos) ELSE from

AbsInit == Abs!SRStart(Flat(files))
Refines == AbsInit /\ [][Abs!SRNext]_<<Flat(files),
                          IF pc = "idle" THEN Before(idx, pos) ELSE from, reply>>

\* Every call returns
Returns == (pc # "idle") ~> (pc = "idle")
=============================================================================
