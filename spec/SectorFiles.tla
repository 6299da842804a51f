----------------------------- MODULE SectorFiles -----------------------------
(***************************************************************************)
(* The sector files of a case, as recorded in its New event:               *)
(*   size, version, scan (width and height), first (the sector of a file   *)
(*   is in its name), files: a sequence of [sector, bytes, records], with  *)
(*   the records [frame, x, y, tag] that were written to it.               *)
(* A record is a header of 16 bytes and a quarter of a frame. Only the     *)
(* records that are completely within the bytes of the file count.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

RecordSize(e) == 16 + (e.size * e.size * 2) \div 4

WholeRecords(e, i) ==
    LET f == e.files[i] IN
    SelectSeq([k \in 1..Len(f.records) |-> [r |-> f.records[k], k |-> k]],
              LAMBDA x : x.k * RecordSize(e) <= f.bytes)

\* The sectors in the files, as a sequence
SectorSeq(e) ==
    FlattenSeq([i \in 1..Len(e.files) |->
      [k \in 1..Len(WholeRecords(e, i)) |->
         LET r == WholeRecords(e, i)[k].r IN
         [frame |-> r.frame, sector |-> e.files[i].sector, x |-> r.x, y |-> r.y,
          tag |-> r.tag]]])

StoredIn(e) == LET s == SectorSeq(e) IN
               {<<s[k].frame, s[k].sector>> : k \in 1..Len(s)}

\* For each frame number: its image number and the tags of its sectors (zero if
\* the sector is missing)
FrameMap(e) ==
    LET s == SectorSeq(e)
        fs == {s[k].frame : k \in 1..Len(s)}
        Of(f) == SelectSeq(s, LAMBDA x : x.frame = f)
    IN [f \in fs |->
          LET o == Of(f) IN
          [ image |-> o[1].y * e.scan[1] + o[1].x,
            tags |-> [j \in 1..4 |->
               IF \E k \in 1..Len(o) : o[k].sector = j - 1
               THEN o[CHOOSE k \in 1..Len(o) : o[k].sector = j - 1].tag ELSE 0] ]]
=============================================================================
