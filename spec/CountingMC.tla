------------------------------ MODULE CountingMC ------------------------------
(***************************************************************************)
(* The algorithm of stempy/electron.cpp (maximalPoints: tests at the       *)
(* borders, neighbours by wrapped indices; thresholds) for all small       *)
(* frames, compared to the definition in Counting, and consequences of it. *)
(***************************************************************************)
EXTENDS Counting, TLC

CONSTANTS Sizes, PixelValues, DarkValues, Exponents, Thresholds

VARIABLES f, o, found
vars == <<f, o, found>>

Opts(n) == {[dark |-> d, gain |-> g, rowDark |-> FALSE, useMean |-> TRUE, omLo |-> 0, omHi |-> 0,
             bg |-> t[1], xray |-> t[2]] :
               d \in {<<>>} \cup {[i \in 1..n |-> IF i % 2 = 0 THEN 0 ELSE v] : v \in DarkValues},
               g \in {<<>>} \cup {[i \in 1..n |-> IF i % 3 = 0 THEN 0 ELSE e] : e \in Exponents},
               t \in Thresholds}

Init == /\ \E s \in Sizes :
             \E px \in [1..(s[1] * s[2]) -> PixelValues] : f = [w |-> s[1], h |-> s[2], px |-> px]
        /\ o \in Opts(Len(f.px))
        /\ found = {}

\* As the code does it: unsigned indices that wrap around, guarded at the borders
Mod(x, y) == ((x % y) + y) % y
Algorithm(v) ==
    LET w == f.w
        h == f.h
        At(r, c) == v[r * w + c + 1]
        Event(i) ==
            LET r == i \div w
                c == i % w
                x == v[i + 1]
                rt == Mod(c + 1, w)
                lf == Mod(c - 1, w)
                up == Mod(r - 1, h)
                dn == Mod(r + 1, h)
            IN /\ r # 0 => /\ x > At(up, c)
                           /\ c = 0 \/ x > At(up, lf)
                           /\ c = w - 1 \/ x > At(up, rt)
               /\ r # h - 1 => /\ x > At(dn, c)
                               /\ c = 0 \/ x > At(dn, lf)
                               /\ c = w - 1 \/ x > At(dn, rt)
               /\ c = 0 \/ x > At(r, lf)
               /\ c = w - 1 \/ x > At(r, rt)
    IN {i \in 0..(w * h - 1) : Event(i)}

\* Unsigned arithmetic without gain: the dark reference makes small values large
Raw(i) == LET d == f.px[i + 1] - Dark(o, i)
          IN IF o.gain = <<>> THEN 16 * (IF d < 0 THEN d + 65536 ELSE d)
             ELSE d * 2^(4 + Exponent(o, i))
Processed == [k \in 1..Len(f.px) |-> LET x == Raw(k - 1) IN
                                     IF x <= o.bg \/ x >= o.xray THEN 0 ELSE x]

Next == found = {} /\ found' = {Algorithm(Processed)} /\ UNCHANGED <<f, o>>
Spec == Init /\ [][Next]_vars

Right == found # {} => LET c == Counted(f, o) IN found = {c.must} /\ c.must = c.may
\* Electrons are not next to each other and within the thresholds
Apart == found # {} => \A i \in CHOOSE s \in found : TRUE :
    Neighbours(f.w, f.h, i) \cap (CHOOSE s \in found : TRUE) = {}
Within == found # {} /\ o.bg >= 0 => \A i \in CHOOSE s \in found : TRUE :
    Raw(i) > o.bg /\ Raw(i) < o.xray

MCSizes == {<<3, 2>>, <<2, 3>>, <<1, 4>>, <<4, 1>>, <<2, 2>>}
MCExponents == {1, -1}
MCSizesBig == {<<3, 3>>}
MCThresholds == {<<0, 64>>, <<8, 24>>}
=============================================================================
