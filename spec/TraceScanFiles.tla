--------------------------- MODULE TraceScanFiles ---------------------------
(***************************************************************************)
(* Traces of lookups in a directory.                                       *)
(***************************************************************************)
EXTENDS ScanFiles, TraceUtil

VARIABLES files
vars == <<files, l>>
TraceInit == files = {} /\ l = 1

TNew == IsEvent("New") /\ files' = {}
TCreate == IsEvent("Create") /\ files' = files \cup {Ev.file}
TRemove == IsEvent("Remove") /\ files' = files \ {Ev.file}
TLookup == /\ IsEvent("Lookup") /\ UNCHANGED files
           /\ Ev.out = Lookup(files, Ev.query)
TraceNext == TNew \/ TCreate \/ TRemove \/ TLookup
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
