----------------------------- MODULE StreamReader -----------------------------
(***************************************************************************)
(* The reader of the single stream formats (file versions 1, 2 and 3), as  *)
(* its users see it: stempy.io.Reader.                                     *)
(*                                                                         *)
(* The input is a sequence of files, each a sequence of blocks of which    *)
(* only the last may be truncated (an interrupted acquisition). `flat` is  *)
(* the concatenation of the blocks of all of the files. A reader delivers  *)
(* exactly the whole blocks, in order, reports each truncated block as an  *)
(* error (data of two files are never spliced together) and says that it   *)
(* is at the end once and forever, until it is reset.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
    flat,   \* the blocks: a sequence of records with a field `whole'
    n,      \* how many of them were consumed since the start or the reset
    reply   \* the reply to the last call

srvars == <<flat, n, reply>>

Blk(i)  == [kind |-> "Block", i |-> i]
ErrR(i) == [kind |-> "Error", i |-> i]
EndR    == [kind |-> "End", i |-> 0]
Nothing == [kind |-> "None", i |-> 0]

SRStart(f) == flat = f /\ n = 0 /\ reply = Nothing
SRNew(f)   == flat' = f /\ n' = 0 /\ reply' = Nothing

Read ==
    /\ UNCHANGED flat
    /\ IF n = Len(flat)
       THEN n' = n /\ reply' = EndR
       ELSE /\ n' = n + 1
            /\ reply' = IF flat[n + 1].whole THEN Blk(n + 1) ELSE ErrR(n + 1)

Reset == n' = 0 /\ reply' = Nothing /\ UNCHANGED flat

SRNext == Read \/ Reset
=============================================================================
