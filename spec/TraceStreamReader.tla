-------------------------- MODULE TraceStreamReader --------------------------
(***************************************************************************)
(* Traces of stempy.io.Reader. The New event describes the bytes of the    *)
(* files (the fields of the headers as they were written, a tag for each   *)
(* frame and the size of each file); every other event is a call with all  *)
(* that it returned.                                                       *)
(***************************************************************************)
EXTENDS StreamReader, TraceUtil, SequencesExt

VARIABLES cfg, held
vars == <<srvars, cfg, held, l>>

\* The number of images, height and width of the frames of a block
Images(v, b) == IF v = 1 THEN b.head[1] ELSE IF v = 2 THEN 1600 ELSE 1
Height(v, b) == IF v = 1 THEN b.head[2] ELSE cfg'.size
Width(v, b)  == IF v = 1 THEN b.head[3] ELSE cfg'.size

\* Little endian sizes of the documented formats, in bytes
HeadSize(v) == IF v = 1 THEN 4096 ELSE IF v = 2 THEN 4 ELSE 16
SizeOf(v, b) == HeadSize(v) + 2 * Images(v, b) * Height(v, b) * Width(v, b)

FlatOf(e) ==
    LET Start(f, k) == FoldLeft(LAMBDA a, b : a + b, 0,
                         [j \in 1..(k - 1) |-> SizeOf(e.version, f.blocks[j])])
        Of(f) == LET all == [k \in 1..Len(f.blocks) |->
                       [block |-> f.blocks[k], begin |-> Start(f, k),
                        whole |-> Start(f, k) + SizeOf(e.version, f.blocks[k]) <= f.bytes]]
                 IN SelectSeq(all, LAMBDA x : x.begin < f.bytes)
    IN FlattenSeq([i \in 1..Len(e.files) |-> Of(e.files[i])])

\* What the user gets for a block
Expected(i) ==
    LET v == cfg.version
        b == flat[i].block
        h == b.head
        images == IF v = 1 THEN h[1] ELSE IF v = 2 THEN 1600 ELSE 1
        height == IF v = 1 THEN h[2] ELSE cfg.size
        width  == IF v = 1 THEN h[3] ELSE cfg.size
    IN [ images |-> images,
         dims |-> <<width, height>>,          \* (width, height)
         shape |-> <<images, height, width>>,
         version |-> IF v = 1 THEN h[4] ELSE v,
         timestamp |-> IF v = 1 THEN h[5] ELSE 0,
         \* Version 1 numbers start from one; a version 2 block has all of the
         \* images of a scan; version 3 has the position of the only image
         numbers |-> IF v = 1 THEN [k \in 1..images |-> b.numbers[k] - 1]
                     ELSE IF v = 2 THEN [k \in 1..images |-> k - 1]
                     ELSE <<h[6] * h[3] + h[5]>>,
         scan |-> IF v = 3 THEN <<h[3], h[4]>> ELSE <<0, 0>>,
         frames |-> b.frames ]

TraceInit == SRStart(<<>>) /\ cfg = [version |-> 0, size |-> 0] /\ held = <<>> /\ l = 1

TNew == /\ IsEvent("New")
        /\ cfg' = [version |-> Ev.version, size |-> Ev.size]
        /\ SRNew(FlatOf(Ev))
        /\ held' = <<>>

TRead == /\ IsEvent("Read")
         /\ Read
         /\ Ev.kind = reply'.kind
         /\ Ev.kind = "Block" => Ev.block = Expected(reply'.i)
         /\ held' = IF Ev.kind = "Block" THEN Append(held, reply'.i) ELSE held
         /\ UNCHANGED cfg

TReset == IsEvent("Reset") /\ Reset /\ UNCHANGED <<cfg, held>>

\* The data of the blocks that were delivered does not change afterwards
THeld == /\ IsEvent("Held")
         /\ Ev.frames = [k \in 1..Len(held) |-> flat[held[k]].block.frames]
         /\ UNCHANGED <<srvars, cfg, held>>

TraceNext == TNew \/ TRead \/ TReset \/ THeld
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
