----------------------------- MODULE TracePhase -----------------------------
(***************************************************************************)
(* Traces of phase reconstructions. A field is a tile that is repeated in  *)
(* both directions: the phase is that of the tile, repeated. The event has *)
(* the phase times 2 pi, the size of the tile and the scale, rounded.      *)
(***************************************************************************)
EXTENDS Phase, TraceUtil

vars == <<l>>
TraceInit == l = 1

Near(a, b) == a - b \in -1..1
TNew == IsEvent("New")
TPhase ==
    /\ IsEvent("Phase")
    /\ Ev.kind = "Done" /\ Ev.unchanged
    /\ \E m \in {Len(Ev.com[1])}, n \in {Len(Ev.com[1][1])} :
          /\ Ev.shape = <<m * Ev.tiles[1], n * Ev.tiles[2]>>
          /\ \E p \in {Phase(Ev.com, Ev.turns, Ev.flip, Ev.reg, m, n)} :
                \A y \in 1..Len(Ev.phase) : \A x \in 1..Len(Ev.phase[y]) :
                    Near(Ev.phase[y][x], p[((y - 1) % m) + 1][((x - 1) % n) + 1])
TraceNext == TNew \/ TPhase
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
