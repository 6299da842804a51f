---------------------------- MODULE TraceH5Files ----------------------------
(***************************************************************************)
(* Traces of the class that reads and writes HDF5 files. Values are tags   *)
(* (0 is zero). Dump is what h5py finds in a file that has been closed,    *)
(* and Foreign a file that was written by h5py.                            *)
(***************************************************************************)
EXTENDS H5Files, TraceUtil

VARIABLES file, mode
vars == <<file, mode, l>>
TraceInit == file = Empty /\ mode = "closed" /\ l = 1

\* As it is seen through the object
Seen == IF mode = "closed" THEN <<>> ELSE file
Guard == Fill(16, -7)

FromList(s) == [n \in {s[k].name : k \in 1..Len(s)} |->
                  LET a == s[CHOOSE k \in 1..Len(s) : s[k].name = n]
                  IN [type |-> a.type, values |-> a.values]]
Content(s) == [p \in {s[k].path : k \in 1..Len(s)} |->
                 LET o == s[CHOOSE k \in 1..Len(s) : s[k].path = p]
                 IN [kind |-> o.kind, type |-> o.type, dims |-> o.dims, values |-> o.values,
                     attrs |-> FromList(o.attrs)]]
Elements(s) == {s[k] : k \in 1..Len(s)}
Same == UNCHANGED <<file, mode>>

TNew == IsEvent("New") /\ file' = Empty /\ mode' = "closed"
TForeign == IsEvent("Foreign") /\ file' = Content(Ev.content) /\ mode' = "closed"
TDump == IsEvent("Dump") /\ mode = "closed" /\ Content(Ev.content) = file /\ Same
TOpen == /\ IsEvent("Open")
         /\ IF Ev.write THEN file' = Empty /\ mode' = "write"
            ELSE UNCHANGED file /\ mode' = "read"
TClose == IsEvent("Close") /\ mode' = "closed" /\ UNCHANGED file

\* An operation that changes the file to new, if it can
Change(can, new) ==
    /\ UNCHANGED mode
    /\ Ev.ok = (mode = "write" /\ can)
    /\ IF Ev.ok THEN file' = new ELSE UNCHANGED file

TCreateGroup == /\ IsEvent("CreateGroup")
                /\ Change(IsNew(file, Ev.path), Put(file, Ev.path, Group))
TWrite == /\ IsEvent("Write")
          /\ Change(CanWrite(file, Ev.path, <<>>, Ev.dims),
                    Written(file, Ev.path, Ev.type, Ev.dims, Ev.values))
TCreate == /\ IsEvent("Create")
           /\ Change(CanWrite(file, Ev.path, Ev.chunk, Ev.dims),
                     Created(file, Ev.path, Ev.type, Ev.dims))
TUpdate == /\ IsEvent("Update") /\ Ev.unchanged
           /\ Change(CanUpdate(file, Ev.path, Ev.start, Ev.counts),
                     Updated(file, Ev.path, Ev.start, Ev.counts, Ev.values))
TSetAttribute == /\ IsEvent("SetAttribute")
                 /\ Change(CanSet(file, Ev.path, Ev.name),
                           WithAttribute(file, Ev.path, Ev.name, Ev.type, Ev.values))

\* For Ev.type that is not the one of the data set, reading fails
TReadOne == /\ IsEvent("ReadOne") /\ Same
            /\ Ev.values = IF CanRead(Seen, Ev.path, Ev.type, <<>>, <<>>, <<>>)
                           THEN IF Len(Seen[Ev.path].dims) = 1 THEN Seen[Ev.path].values
                                ELSE <<>>
                           ELSE <<>>
TReadAll == /\ IsEvent("ReadAll") /\ Same
            /\ Ev.dims = Dimensions(Seen, Ev.path)
            /\ Ev.values = IF CanRead(Seen, Ev.path, Ev.type, <<>>, <<>>, <<>>)
                              /\ Dimensions(Seen, Ev.path) # <<>>
                           THEN Seen[Ev.path].values ELSE <<>>
\* The buffer has Ev.n + 16 elements
TRead == /\ IsEvent("Read") /\ Same
         /\ Ev.ok = CanRead(Seen, Ev.path, Ev.type, Ev.start, Ev.strides, Ev.counts)
         /\ Ev.values = IF Ev.ok
                        THEN LET r == Read(Seen, Ev.path, Ev.start, Ev.strides, Ev.counts)
                             IN r \o Fill(Ev.n - Len(r), -7) \o Guard
                        ELSE Fill(Ev.n, -7) \o Guard
TAttribute == /\ IsEvent("Attribute") /\ Same
              /\ Ev.ok = CanGet(Seen, Ev.path, Ev.name, Ev.type)
              /\ Ev.ok => Ev.values = Seen[Ev.path].attrs[Ev.name].values

TQuery ==
    /\ IsEvent("Query") /\ Same
    /\ Ev.isGroup = IsGroup(Seen, Ev.path) /\ Ev.isData = IsData(Seen, Ev.path)
    /\ Ev.dataType = DataType(Seen, Ev.path)
    /\ Ev.dims = Dimensions(Seen, Ev.path)
    /\ Ev.dimCount = IF Ev.dims = <<>> THEN -1 ELSE Len(Ev.dims)
    /\ Ev.hasAttributes = IF Ev.path \in DOMAIN Seen THEN DOMAIN Seen[Ev.path].attrs # {}
                          ELSE FALSE
    /\ \A k \in 1..Len(Ev.attributes) :
          LET a == Ev.attributes[k]
          IN /\ a.has = HasAttribute(Seen, Ev.path, a.name)
             /\ a.type = AttributeType(Seen, Ev.path, a.name)
    /\ Ev.childrenOk = IsGroup(Seen, Ev.path)
    /\ Elements(Ev.children) = IF IsGroup(Seen, Ev.path)
                               THEN {q[Len(q)] : q \in Children(Seen, Ev.path)} ELSE {}
    /\ Len(Ev.children) = Cardinality(Elements(Ev.children))
    /\ Elements(Ev.all) = AllData(Seen, Ev.path)
    /\ Len(Ev.all) = Cardinality(Elements(Ev.all))
TraceNext == TNew \/ TForeign \/ TDump \/ TOpen \/ TClose \/ TCreateGroup \/ TWrite \/ TCreate
             \/ TUpdate \/ TSetAttribute \/ TReadOne \/ TReadAll \/ TRead \/ TAttribute \/ TQuery
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
