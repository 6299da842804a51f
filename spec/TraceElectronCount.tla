-------------------------- MODULE TraceElectronCount --------------------------
(***************************************************************************)
(* Traces of electron counting. New gives the frames, either as sector     *)
(* files (with the pixels of the sectors by their tags) or directly. Every *)
(* Count event has its options, the thresholds that were used (from the    *)
(* metadata, the output or as given) and the result.                       *)
(*                                                                         *)
(* The abstract machine is that of ElectronCount: all frames, each once,   *)
(* at their positions.                                                     *)
(***************************************************************************)
EXTENDS SectorFiles, Counting, TraceUtil

VARIABLES cfg, frames   \* frames: sequence of [pos, complete, f]
vars == <<cfg, frames, l>>

TraceInit == l = 1 /\ frames = <<>> /\ cfg = [scan |-> <<0, 0>>]

\* The pixels of a frame from those of its sectors (zero where one is missing)
Assemble(e, tags) ==
    LET n == e.size
        q == n \div 4
        At(i) == LET r == i \div n
                     c == i % n
                     s == IF e.version = 4 THEN c \div q ELSE r \div q
                     k == IF e.version = 4 THEN (r * q) + (c % q) ELSE ((r % q) * n) + c
                 IN IF tags[s + 1] = 0 THEN 0 ELSE e.px[tags[s + 1]][k + 1]
    IN [w |-> n, h |-> n, px |-> TLCEval([i \in 1..(n * n) |-> At(i - 1)])]

FromFiles(e) ==
    LET m == TLCEval(FrameMap(e))
        fs == SetToSeq(DOMAIN m)
    IN [k \in 1..Len(fs) |->
          [pos |-> m[fs[k]].image, complete |-> \A s \in 1..4 : m[fs[k]].tags[s] # 0,
           f |-> Assemble(e, m[fs[k]].tags)]]

TNew == /\ IsEvent("New")
        /\ cfg' = [scan |-> Ev.scan, w |-> Ev.w, h |-> Ev.h]
        /\ frames' = IF Ev.source = "files" THEN FromFiles(Ev)
                     ELSE [k \in 1..Len(Ev.frames) |->
                            [pos |-> Ev.numbers[k], complete |-> TRUE,
                             f |-> [w |-> Ev.w, h |-> Ev.h, px |-> Ev.frames[k]]]]

\* The frames that are counted
Counts == SelectSeq(frames, LAMBDA x : x.complete \/ ~Ev.onlyComplete)
NComplete == Len(SelectSeq(frames, LAMBDA x : x.complete))
Scan == IF Ev.scan[1] = 0 \/ Ev.scan[2] = 0 THEN cfg.scan ELSE Ev.scan

\* The lists are those of the frames in some order, the rest is empty
RECURSIVE Match(_, _)
Match(lists, cs) ==
    IF cs = <<>> THEN \A k \in 1..Len(lists) : lists[k] = <<>>
    ELSE /\ lists # <<>>
         /\ \E k \in 1..Len(cs) :
              /\ IsCount(cs[k], lists[1])
              /\ \E rest \in {RemoveAt(cs, k)}, more \in {Tail(lists)} : Match(more, rest)

\* Thresholds: [bg, xray, omLo, omHi]
WithThresholds(o) == [dark |-> o.dark, gain |-> o.gain, rowDark |-> o.rowDark,
                      useMean |-> o.useMean, bg |-> Ev.th.bg, xray |-> Ev.th.xray,
                      omLo |-> Ev.th.omLo, omHi |-> Ev.th.omHi]

RightResult == IF ~Ev.judged THEN Len(Ev.data) = Scan[1] * Scan[2] ELSE
    \E o \in {WithThresholds(Ev.options)}, todo \in {Counts}, data \in {Ev.data} :
      \E cs \in {TLCEval([k \in 1..Len(todo) |-> Counted(todo[k].f, o)])} :
        \E at \in {TLCEval([p \in 1..(Scan[1] * Scan[2]) |->
                       {k \in 1..Len(todo) : todo[k].pos = p - 1}])} :
          \E most \in {Max({Cardinality(at[p]) : p \in DOMAIN at})} :
            /\ Len(data) = Len(at)
            /\ \A p \in DOMAIN at :
                 /\ Len(data[p]) = most
                 /\ \E ks \in {SetToSeq(at[p])} :
                      Match(data[p], TLCEval([k \in 1..Len(ks) |-> cs[ks[k]]]))

\* The attributes of the array
RightArray == /\ Ev.shape = <<Scan[2], Scan[1]>>
              /\ Ev.frameShape = <<cfg.h, cfg.w>>
              /\ ToSet(Ev.dtypes) \subseteq {"uint32"}

-----------------------------------------------------------------------------
\* Statistics: m is the metadata, all values rounded, in units of 1/64
Near(a, b, tol) == a - b <= tol /\ b - a <= tol

\* std is the root of the variance (in 1/64 each); for standard deviations below 500
Relations(m) ==
    /\ Near(m.std * m.std, m.variance * 64, m.std + 64)
    /\ Near(m.xray, m.mean + m.xraySigma * m.std, m.xraySigma + 2)
    /\ Near(m.bg, m.optMean + m.bgSigma * m.optStd, m.bgSigma + 2)
    /\ m.optStd >= 0 /\ m.std >= 0
    /\ m.min <= m.mean /\ m.mean <= m.max

Echo(m, o) == /\ m.samples = o.samples /\ m.xraySigma = o.xraySigma /\ m.bgSigma = o.bgSigma
              /\ (m.calculated = 1)

\* The samples are o.samples frames (each may be taken several times) out of at most
\* Ev.distinct complete frames. With many samples, each of the frames is one of them
\* (Ev.each; the trace has so many that the probability of missing one is below 1e-12). Gains are not fractions here.
Px(f, o, i) == (f.px[i] - Dark(o, i - 1)) * (2 ^ Exponent(o, i - 1))
Stats(f, o, c) ==
    CHOOSE s \in {[sum |-> FoldLeft(LAMBDA a, b : a + b, 0, px),
                   sq |-> FoldLeft(LAMBDA a, b : a + ((b - c) * (b - c)), 0, px),
                   min |-> Min(ToSet(px)), max |-> Max(ToSet(px))] :
                 px \in {TLCEval([i \in 1..Len(f.px) |-> Px(f, o, i)])}} : TRUE

\* Of the stats s of the frames (deviations from c), frame k n[k] times, K in total
SamplesAre(m, s, c, n, K, size) ==
    \E ks \in {{k \in DOMAIN n : n[k] > 0}} :
      \E sum \in {FoldSet(LAMBDA k, a : a + (n[k] * s[k].sum), 0, ks)},
         sq \in {FoldSet(LAMBDA k, a : a + (n[k] * s[k].sq), 0, ks)},
         N \in {K * size} :
        /\ Near(m.mean * N, sum * 64, N)
        /\ m.min = 64 * Min({s[k].min : k \in ks})
        /\ m.max = 64 * Max({s[k].max : k \in ks})
        /\ \E dev \in {sum - (N * c)} :
             Near(m.variance * (N - 1), (sq - ((dev * dev) \div N)) * 64, (2 * N) + 64)

RECURSIVE Compositions(_, _, _)
\* All functions 1..n -> Nat with the sum K and at most B positive values
Compositions(n, K, B) ==
    IF n = 0 THEN IF K = 0 THEN {<<>>} ELSE {}
    ELSE UNION {{<<x>> \o r : r \in Compositions(n - 1, K - x, B - (IF x > 0 THEN 1 ELSE 0))} :
                  x \in IF B > 0 THEN 0..K ELSE {0}}

RightSamples(m, o, candidates) ==
    \E cs \in {candidates}, c \in {m.mean \div 64} :
      \E s \in {TLCEval([k \in 1..Len(cs) |-> Stats(cs[k].f, o, c)])},
         size \in {Len(cs[1].f.px)}, K \in {o.samples} :
        \E n \in Compositions(Len(cs), K, Ev.distinct) :
          /\ (IF Ev.each THEN \A k \in DOMAIN n : n[k] > 0 ELSE TRUE) = TRUE
          /\ SamplesAre(m, s, c, n, K, size)

\* The fit of Gaussian noise finds its mean and its standard deviation
RightFit(m, g) == IF g = <<>> THEN TRUE
                 ELSE Near(m.optMean, 64 * g[1], g[3]) /\ Near(m.optStd, 64 * g[2], g[3])

RightMeta(options) == \E m \in {Ev.meta}, o \in {options} :
    /\ Relations(m)
    /\ Echo(m, o)
    /\ RightFit(m, Ev.gaussian)
    /\ IF ~Ev.checkSamples THEN TRUE
       ELSE RightSamples(m, o,
            LET all == SelectSeq(frames, LAMBDA x : x.complete)
            IN IF Ev.firstBlocks > 0 THEN SubSeq(all, 1, Ev.firstBlocks) ELSE all)

-----------------------------------------------------------------------------
\* Counting with given thresholds or those that are calculated. The fit may fail, but
\* only where the trace says that the data are such
TCount ==
    /\ IsEvent("Count")
    /\ IF Ev.needs > (IF Ev.serial THEN Len(frames) ELSE NComplete)
       THEN Ev.kind = "Error" /\ Ev.exception \in {"ValueError", "StopIteration", "RuntimeError"}
       ELSE IF Ev.noFit = 1 THEN Ev.kind = "Error" /\ Ev.exception = "RuntimeError"
       ELSE IF Ev.kind = "Error" THEN Ev.mayFail /\ Ev.exception = "RuntimeError"
       ELSE /\ Ev.kind = "Value"
            /\ RightArray
            /\ RightResult = TRUE
            /\ (IF Ev.hasMeta THEN RightMeta(Ev.options) ELSE TRUE) = TRUE
    /\ UNCHANGED <<cfg, frames>>

\* The thresholds by themselves
TThresholds ==
    /\ IsEvent("Thresholds")
    /\ IF Ev.noFit = 1 THEN Ev.kind = "Error" /\ Ev.exception = "RuntimeError"
       ELSE IF Ev.kind = "Error" THEN Ev.mayFail /\ Ev.exception = "RuntimeError"
       ELSE Ev.kind = "Value" /\ RightMeta(Ev.options) = TRUE
    /\ UNCHANGED <<cfg, frames>>

-----------------------------------------------------------------------------
\* Counting with several processes (see Distributed): what rank 0 gets. A process may have
\* fewer complete frames than its share of the samples, unless there are enough of them at
\* every position
EnoughEverywhere ==
    /\ Ev.ranks <= cfg.scan[1] * cfg.scan[2]
    /\ \A p \in 0..((cfg.scan[1] * cfg.scan[2]) - 1) :
          Cardinality({k \in 1..Len(frames) : frames[k].complete /\ frames[k].pos = p})
             >= Ev.needs
TDistCount ==
    /\ IsEvent("DistCount")
    /\ IF Ev.needs > NComplete THEN Ev.kind = "Error" /\ Ev.exception = "ValueError"
       ELSE IF Ev.kind = "Error"
       THEN \/ Ev.exception = "ValueError" /\ ~EnoughEverywhere
            \/ Ev.exception = "RuntimeError" /\ (Ev.mayFail \/ Ev.noFit = 1)
       ELSE /\ Ev.kind = "Value" /\ Ev.noFit = 0
            /\ RightArray
            /\ RightResult = TRUE
            /\ RightMeta(Ev.options) = TRUE
    /\ UNCHANGED <<cfg, frames>>

TraceNext == TNew \/ TCount \/ TThresholds \/ TDistCount
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
