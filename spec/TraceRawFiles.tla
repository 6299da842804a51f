---------------------------- MODULE TraceRawFiles ----------------------------
(***************************************************************************)
(* Traces with raw HDF5 files: converted from sector files, saved from     *)
(* arrays, and read by PyReader. Frames are sequences of tags (of the four *)
(* sectors, or of the whole frame).                                        *)
(***************************************************************************)
EXTENDS RawFiles, SectorReader, SectorFiles, TraceUtil

VARIABLES cfg, map, files, readers, held
vars == <<secvars, cfg, map, files, readers, held, l>>

NoFile == [exists |-> FALSE, format |-> "No"]

TraceInit == /\ SecStart({}, {}) /\ held = <<>> /\ l = 1 /\ map = <<>>
             /\ cfg = [version |-> 0] /\ files = <<>> /\ readers = <<>>

TNew == /\ IsEvent("New")
        /\ cfg' = [version |-> Ev.version, scan |-> Ev.scan, size |-> Ev.size]
        /\ map' = FrameMap(Ev)
        /\ SecNew(0..3, StoredIn(Ev))
        /\ held' = <<>> /\ files' = <<>> /\ readers' = <<>>

Same == UNCHANGED <<secvars, cfg, map>>

\* The sector reader
SRead == /\ IsEvent("SectorRead")
         /\ IF Ev.kind = "End" THEN End
            ELSE /\ Ev.kind = "Block"
                 /\ \E f \in DOMAIN map : /\ Ev.sectors = map[f].tags /\ Ev.number = map[f].image
                                          /\ Deliver(f)
         /\ UNCHANGED <<cfg, map, files, readers, held>>
SReset == IsEvent("SectorReset") /\ Reset /\ UNCHANGED <<cfg, map, files, readers, held>>

Zero == <<0, 0, 0, 0>>
Put(p, f) == IF p <= Len(files) THEN [files EXCEPT ![p] = f] ELSE Append(files, f)

\* All frames that remain go to the file, which is replaced
Convert ==
    /\ IsEvent("Convert")
    /\ Ev.kind = "Value"
    /\ LET rest == FramesOf(stored) \ delivered
           w == cfg.scan[1]
           h == cfg.scan[2]
           common == [exists |-> TRUE, format |-> Ev.format, shape |-> <<cfg.size, cfg.size>>,
                      dtype |-> "uint16"]
       IN IF rest = {}
          THEN Ev.file = [exists |-> TRUE, format |-> "None"]
          ELSE /\ Converted(Ev.file.frames, w * h, rest \cap Complete, rest \cap Partial,
                            [f \in DOMAIN map |-> map[f].image], [f \in DOMAIN map |-> map[f].tags],
                            Zero)
               /\ Ev.file.format = Ev.format
               /\ IF Ev.format = "Frame"
                  THEN Ev.file = [common EXCEPT !.format = "Frame"] @@
                                 [frames |-> Ev.file.frames, scan |-> cfg.scan, positions |-> <<>>,
                                  stem |-> [shape |-> <<0, h, w>>, values |-> <<>>, names |-> <<>>]]
                  ELSE Ev.file = common @@ [frames |-> Ev.file.frames, outer |-> <<w, h>>]
    /\ files' = Put(Ev.path, Ev.file)
    /\ delivered' = FramesOf(stored) /\ reply' = Nothing
    /\ UNCHANGED <<sectors, stored, cfg, map, readers, held>>

\* It fails if the file cannot be created. This is the last event.
BadPath == /\ IsEvent("BadPath")
           /\ IF FramesOf(stored) \ delivered = {} THEN Ev.kind = "Value" ELSE Ev.kind = "Error"
           /\ Same /\ UNCHANGED <<files, readers, held>>

HasFrames(p) == p <= Len(files) /\ files[p].format = "Frame"
NoStem == [shape |-> <<>>, values |-> <<>>, names |-> <<>>]

Save ==
    /\ IsEvent("Save")
    /\ IF HasFrames(Ev.path)
       THEN /\ Ev.kind = "Error"
            /\ Ev.file = files[Ev.path]
            /\ UNCHANGED files
       ELSE /\ Ev.kind = "Value"
            /\ Ev.file = [exists |-> TRUE, format |-> "Frame", shape |-> Ev.shape,
                          dtype |-> Ev.dtype, frames |-> Ev.frames, scan |-> Ev.scan,
                          positions |-> Ev.positions,
                          stem |-> IF Ev.path <= Len(files) /\ files[Ev.path].format = "Stem"
                                   THEN files[Ev.path].stem ELSE NoStem]
            /\ (Ev.zip => Ev.compression = "gzip")
            /\ files' = Put(Ev.path, Ev.file)
    /\ Same /\ UNCHANGED <<readers, held>>

\* A name for each of the images, in a file that has none
SaveStem ==
    /\ IsEvent("SaveStem")
    /\ LET old == IF Ev.path <= Len(files) THEN files[Ev.path] ELSE NoFile
           bad == Ev.shape[1] # Len(Ev.names)
           has == old # NoFile /\ old.format \in {"Frame", "Stem"} /\ old.stem # NoStem
           stem == [shape |-> Ev.shape, values |-> Ev.values, names |-> Ev.names]
       IN /\ Ev.kind = IF bad \/ has THEN "Error" ELSE "Value"
          /\ IF bad \/ has THEN Ev.file = old /\ files' = Put(Ev.path, old)
             ELSE /\ Ev.file = IF old # NoFile /\ old.format = "Frame" THEN [old EXCEPT !.stem = stem]
                               ELSE [exists |-> TRUE, format |-> "Stem", stem |-> stem]
                  /\ files' = Put(Ev.path, Ev.file)
    /\ Same /\ UNCHANGED <<readers, held>>

\* Files without scan_dimensions are older ones
Dims(f) == IF f.scan # <<>> THEN f.scan ELSE <<f.stem.shape[3], f.stem.shape[2]>>
Positions(f) == IF f.positions # <<>> THEN f.positions ELSE Ids(Len(f.frames))

Open ==
    /\ IsEvent("Open")
    /\ Ev.kind = "Value"
    /\ LET f == files[Ev.path]
       IN readers' = Append(readers, OpenFile([shape |-> f.shape, frames |-> f.frames,
                                               scan |-> Dims(f), positions |-> Positions(f)], 32))
    /\ Same /\ UNCHANGED <<files, held>>

Make ==
    /\ IsEvent("Make")
    /\ readers' = Append(readers,
          [shape |-> Ev.shape, frames |-> Ev.frames, scan |-> Ev.scan, positions |-> Ev.positions,
           size |-> Ev.size, total |-> Ev.total, next |-> 0])
    /\ Same /\ UNCHANGED <<files, held>>

Read ==
    /\ IsEvent("Read")
    /\ LET r == readers[Ev.h]
       IN IF AtEnd(r)
          THEN Ev.kind = "End" /\ UNCHANGED <<readers, held>>
          ELSE /\ Ev.kind = "Block"
               /\ Ev.block = BlockOf(r)
               /\ readers' = [readers EXCEPT ![Ev.h] = Advance(r)]
               /\ held' = Append(held, BlockOf(r).frames)
    /\ Same /\ UNCHANGED files

PReset == /\ IsEvent("Reset")
          /\ readers' = [readers EXCEPT ![Ev.h] = Rewind(@)]
          /\ Same /\ UNCHANGED <<files, held>>

THeld == /\ IsEvent("Held") /\ Ev.frames = held
         /\ Same /\ UNCHANGED <<files, readers, held>>

TraceNext == TNew \/ SRead \/ SReset \/ Convert \/ BadPath \/ Save \/ SaveStem \/ Open \/ Make
             \/ Read \/ PReset \/ THeld
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
