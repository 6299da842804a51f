------------------------------- MODULE RawFiles -------------------------------
(***************************************************************************)
(* HDF5 files of raw frames, and the reader that delivers them in blocks.  *)
(* A file is [shape, frames, scan, positions]: the shape <<height, width>> *)
(* of a frame, the frames (anything that tells them apart), the scan       *)
(* <<width, height>> and the position of each frame.                       *)
(* A reader is [shape, frames, scan, positions, size, total, next], where  *)
(* next is the number of frames that were delivered.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Ids(n) == [k \in 1..n |-> k - 1]

\* Frames that come from a stream of sectors: `late` and `early` are the frames
\* that it delivers, all of `early` before any of `late`. The last one at a
\* position remains, and positions without any are zero. pos[f] is the position
\* of a frame, what[f] its contents.
Lasts(p, early, late, pos) ==
    LET L == {f \in late : pos[f] = p}
    IN IF L # {} THEN L ELSE {f \in early : pos[f] = p}

Converted(frames, n, early, late, pos, what, zero) ==
    /\ Len(frames) = n
    /\ \A p \in 0..(n - 1) :
         LET S == Lasts(p, early, late, pos)
         IN IF S = {} THEN frames[p + 1] = zero
            ELSE \E f \in S : frames[p + 1] = what[f]

OpenFile(f, size) ==
    [shape |-> f.shape, frames |-> f.frames, scan |-> f.scan, positions |-> f.positions,
     size |-> size, total |-> Len(f.frames), next |-> 0]

BlockSize(r) == IF r.next + r.size > r.total THEN r.total - r.next ELSE r.size
AtEnd(r) == r.next >= r.total
BlockOf(r) ==
    LET n == BlockSize(r)
    IN [images |-> n, numbers |-> SubSeq(r.positions, r.next + 1, r.next + n),
        frames |-> SubSeq(r.frames, r.next + 1, r.next + n),
        dims |-> <<r.shape[2], r.shape[1]>>, shape |-> <<n>> \o r.shape, scan |-> r.scan]
Advance(r) == [r EXCEPT !.next = @ + BlockSize(r)]
Rewind(r) == [r EXCEPT !.next = 0]
=============================================================================
