--------------------------- MODULE TraceCountFiles ---------------------------
(***************************************************************************)
(* Traces with sparse arrays and the files they are written to and loaded  *)
(* from. A file event shows all of the file, as it is read by other means. *)
(***************************************************************************)
EXTENDS TraceSparseArray, CountFiles

VARIABLE files
fvars == <<arrs, files, l>>

FInit == TraceInit /\ files = <<>>

FNew == TNew /\ files' = <<>>

FArray == TArray /\ Ev.meta = Ev.metaGiven /\ UNCHANGED files

\* A file of an older version (or of another program)
MakeFile ==
    /\ IsEvent("MakeFile")
    /\ WellFormedFile(Ev.file)
    /\ files' = Append(files, Ev.file)
    /\ UNCHANGED arrs

\* Writing to a file that has counts already is an error and changes nothing
Write ==
    /\ IsEvent("Write")
    /\ LET a == arrs[Ev.h]
       IN IF Ev.path <= Len(files)
          THEN /\ Ev.kind = "Error"
               /\ Ev.file = files[Ev.path]
               /\ UNCHANGED files
          ELSE /\ Ev.kind = "Value"
               /\ Represents(Ev.data, a.scan, a.frame)
               /\ Meaning(Ev.data) = a.nz
               /\ Ev.file = Encode([scan |-> a.scan, frame |-> a.frame, data |-> Ev.data], Ev.meta)
               /\ ToSet(Ev.dtypes) \subseteq {"uint32"}
               /\ files' = Append(files, Ev.file)
    /\ UNCHANGED arrs

TLoad ==
    /\ IsEvent("Load")
    /\ Ev.out.kind = "Sparse"
    /\ \E f \in {files[Ev.path]} : \E x \in {Load(f, Ev.keep)}, out \in {Ev.out.array} :
         /\ out.scan = x.scan /\ out.frame = x.frame
         /\ SameFrames(out.data, x.data)
         /\ f.version # 1 => out.data = x.data
         /\ ToSet(Ev.dtypes) \subseteq {"uint32"}
         /\ Ev.meta = f.meta
         /\ Ev.out.options = Ev.options
         /\ \E a \in {[scan |-> x.scan, frame |-> x.frame, nz |-> Meaning(x.data),
                       sparse |-> Ev.options.sparse, allow |-> Ev.options.allow,
                       dtype |-> Ev.options.dtype]} :
              arrs' = Append(arrs, a) /\ Shows(out, a)
    /\ UNCHANGED files

FNext == FNew \/ FArray \/ MakeFile \/ Write \/ TLoad
         \/ ((TObserve \/ TSet \/ TSlice \/ TBin \/ TReshape \/ TRavel \/ TReduce)
             /\ UNCHANGED files)
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
