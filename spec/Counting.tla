------------------------------- MODULE Counting -------------------------------
(***************************************************************************)
(* Electron counting of one frame: the dark reference is subtracted, the   *)
(* gain applied, optionally each half of a row scaled by the row dark      *)
(* algorithm, the values outside of the thresholds removed; an electron is *)
(* a pixel that is greater than all of its neighbours.                     *)
(*                                                                         *)
(* A frame is [w, h, px] with px in row major order. Values are in units   *)
(* of 1/16, so that everything but the row dark algorithm is exact. Where  *)
(* the implementation rounds, a value is an interval <<lo, hi>>; a pixel   *)
(* must (not) be an electron if all of the values in the intervals agree.  *)
(*                                                                         *)
(* The options o: dark (sequence or <<>>), gain (sequence of exponents: a  *)
(* pixel is multiplied by 2^e; or <<>>), rowDark, useMean, and in 1/16 bg  *)
(* (rounded down), xray (rounded up), and in 1/64 the optimized mean       *)
(* between omLo and omHi.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Unit == 16

\* F(x), with x evaluated once (TLC evaluates the definitions of LET and the arguments of
\* operators at every use within an action)
With(x, F(_)) == CHOOSE y \in {F(z) : z \in {x}} : TRUE

\* The (zero based) neighbours of pixel i
Neighbours(w, h, i) ==
    LET r == i \div w
        c == i % w
    IN {(r + d[1]) * w + (c + d[2]) : d \in
          {d \in ((-1..1) \X (-1..1)) \ {<<0, 0>>} :
             r + d[1] \in 0..(h - 1) /\ c + d[2] \in 0..(w - 1)}}

\* v[i + 1] is the interval of pixel i
Must(w, h, v) == {i \in 0..(w * h - 1) :
    \A n \in Neighbours(w, h, i) : v[i + 1][1] > v[n + 1][2]}
May(w, h, v) == {i \in 0..(w * h - 1) :
    \A n \in Neighbours(w, h, i) : v[i + 1][2] > v[n + 1][1]}

Threshold(o, x) ==
    IF x[2] <= o.bg \/ x[1] >= o.xray THEN <<0, 0>>
    ELSE IF x[1] > o.bg /\ x[2] < o.xray THEN x
    ELSE <<IF x[1] < 0 THEN x[1] ELSE 0, IF x[2] < 0 THEN 0 ELSE x[2]>>

Dark(o, i) == IF o.dark = <<>> THEN 0 ELSE o.dark[i + 1]
Exponent(o, i) == IF o.gain = <<>> THEN 0 ELSE o.gain[i + 1]

\* Without gain the values are unsigned; what is below the dark reference is not
\* an electron
Plain(f, o, i) ==
    LET x == f.px[i + 1] - Dark(o, i)
    IN IF o.gain = <<>> /\ x < 0 THEN <<0, 0>>
       ELSE LET y == x * 2^(4 + Exponent(o, i)) IN Threshold(o, <<y, y>>)

\* The row dark algorithm: the left half of a row has w \div 2 pixels
Half(f, i) == LET r == i \div f.w
                  c == i % f.w
                  l == f.w \div 2
              IN IF c < l THEN [from |-> r * f.w, n |-> l]
                 ELSE [from |-> r * f.w + l, n |-> f.w - l]

\* The mean is num / den, or the median
MeanOf(f, hf) == [num |-> FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(f.px, hf.from + 1, hf.from + hf.n)),
                  den |-> hf.n]
MedianOf(f, hf) ==
    LET s == SortSeq(SubSeq(f.px, hf.from + 1, hf.from + hf.n), <)
        m == hf.n \div 2
    IN IF hf.n % 2 = 1 THEN [num |-> s[m + 1], den |-> 1]
       ELSE [num |-> s[m] + s[m + 1], den |-> 2]

\* x * om / 64 * stat.den / stat.num in units of 1/u, with the rounding errors of single
\* precision; exact if nothing is rounded
Floor(a, b) == a \div b
Scaled(x, o, stat, u) ==
    LET den == 64 * stat.num
        lo == x * stat.den * o.omLo * u
        hi == x * stat.den * o.omHi * u
        exact == /\ o.omLo = o.omHi
                 /\ stat.num % stat.den = 0 \/ stat.den = 2
                 /\ (o.omLo * stat.den) % den = 0
        slack(n) == (IF n < 0 THEN -n ELSE n) \div 1000000 + 1
    IN IF exact THEN <<lo \div den, lo \div den>>
       ELSE <<(lo - slack(lo)) \div den, (hi + slack(hi)) \div den + (IF u = 1 THEN 0 ELSE 1)>>

RowDark(f, o, i, stat) ==
    LET x == f.px[i + 1] - Dark(o, i)
    IN IF o.gain = <<>>
       THEN \* the result is truncated to an integer
            LET s == Scaled(x, o, stat, 1) IN Threshold(o, <<Unit * s[1], Unit * s[2]>>)
       ELSE Threshold(o, Scaled(x, o, stat, 2^(4 + Exponent(o, i))))

Stat(f, o, hf) == IF o.useMean THEN MeanOf(f, hf) ELSE MedianOf(f, hf)

Values(f, o) ==
    IF ~o.rowDark THEN TLCEval([i \in 1..Len(f.px) |-> Plain(f, o, i - 1)])
    ELSE With(TLCEval([i \in 1..Len(f.px) |->
                        LET hf == Half(f, i - 1)
                        IN IF i - 1 # hf.from THEN [num |-> 0, den |-> 0] ELSE Stat(f, o, hf)]),
              LAMBDA stat : TLCEval([i \in 1..Len(f.px) |->
                                      RowDark(f, o, i - 1, stat[Half(f, i - 1).from + 1])]))

Counted(f, o) == With(Values(f, o),
                      LAMBDA v : [must |-> Must(f.w, f.h, v), may |-> May(f.w, f.h, v)])

\* The list of electrons of a frame: each of them once, in ascending order
IsCount(c, list) ==
    /\ \A k \in 1..(Len(list) - 1) : list[k] < list[k + 1]
    /\ c.must \subseteq ToSet(list)
    /\ ToSet(list) \subseteq c.may
=============================================================================
