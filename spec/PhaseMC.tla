------------------------------- MODULE PhaseMC -------------------------------
(***************************************************************************)
(* Laws of the phase: the phase of the gradient of a phase is this phase,  *)
(* apart from its mean; it is linear, moves and turns with the field, has  *)
(* the mean 0, and does not depend on constants.                           *)
(***************************************************************************)
EXTENDS Phase, FiniteSets

CONSTANTS Values, Shapes, Amplitudes, Waves, Regularizations

QuickShapes == {<<1, 1>>, <<1, 4>>, <<2, 2>>}
DeepShapes == QuickShapes \cup {<<1, 2>>, <<2, 1>>, <<4, 1>>}
Fields(m, n) == [1..m -> [1..n -> Values]]
\* Waves with a period of 4 (the gradient of a period of 2 is not determined)
Wave(k, y, x) == CASE k = 1 -> Power(x)[1] [] k = 2 -> Power(x)[2]
                   [] k = 3 -> Power(y)[1] [] k = 4 -> Power(y)[2]
                   [] k = 5 -> Power(x + y)[1] [] k = 6 -> Power(x + y)[2]
                   [] k = 7 -> Power(x - y)[1] [] OTHER -> Power(x - y)[2]

VARIABLES shape, x, y, r, amplitude
vars == <<shape, x, y, r, amplitude>>
Init == /\ shape \in Shapes /\ x \in Fields(shape[1], shape[2]) /\ y = <<>>
        /\ r \in Regularizations /\ amplitude = <<>>
Next == /\ y = <<>>
        /\ y' \in Fields(shape[1], shape[2])
        /\ amplitude' \in (IF shape = <<1, 1>> /\ r = 0
                           THEN {a \in [1..8 -> Amplitudes] :
                                   Cardinality({k \in 1..8 : a[k] # 0}) <= Waves} ELSE {<<>>})
        /\ UNCHANGED <<shape, x, r>>
Spec == Init /\ [][Next]_vars

M == shape[1]
N == shape[2]
Of(c) == Phase(c, 0, FALSE, r, M, N)
P == Of(<<x, y>>)
Zero == [i \in 1..M |-> [j \in 1..N |-> 0]]
Map(f(_, _)) == [i \in 1..M |-> [j \in 1..N |-> f(i, j)]]
Plus(a, b) == Map(LAMBDA i, j : a[i][j] + b[i][j])
Minus(a) == Map(LAMBDA i, j : -a[i][j])
Moved(a) == Map(LAMBDA i, j : a[(i % M) + 1][(j % N) + 1])
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)

Mean == y # <<>> => Total([i \in 1..M |-> Total(P[i], N)], M) = 0
Linear == y # <<>> => P = Plus(Of(<<x, Zero>>), Of(<<Zero, y>>)) /\ Of(<<Minus(x), Minus(y)>>) = Minus(P)
Moves == y # <<>> => Of(<<Moved(x), Moved(y)>>) = Moved(P)
Constants == y # <<>> => Of(<<Map(LAMBDA i, j : x[i][j] + 3), Map(LAMBDA i, j : y[i][j] - 2)>>) = P
\* Transposition: rows and columns have the same role
Transposed == y # <<>> =>
              LET T(a) == [j \in 1..N |-> [i \in 1..M |-> a[i][j]]]
              IN Phase(<<T(y), T(x)>>, 0, FALSE, r, N, M) = T(P)
Turns == y # <<>> =>
    /\ Phase(<<x, y>>, 2, FALSE, r, M, N) = Minus(P)
    /\ Phase(<<x, y>>, 1, FALSE, r, M, N) = Of(<<Minus(y), x>>)
    /\ Phase(<<x, y>>, 0, TRUE, r, M, N) = Of(<<x, Minus(y)>>)

\* 4 by 4
Inverse == amplitude # <<>> =>
    LET phi == [i \in 1..4 |-> [j \in 1..4 |->
                  Total([k \in 1..8 |-> amplitude[k] * Wave(k, i - 1, j - 1)], 8)]]
        F == Fourier(phi, 4, 4)
        Gradient(rows) == [i \in 1..4 |-> [j \in 1..4 |->
            Sum2([f \in Grid(4, 4) |->
                    Mul(Times(Frequency(f[IF rows THEN 1 ELSE 2], 4), Mul(<<0, 1>>, F[f])),
                        Power(f[1] * (i - 1) + f[2] * (j - 1)))], 4, 4)[1]]]
    IN Phase(<<Gradient(TRUE), Gradient(FALSE)>>, 0, FALSE, 0, 4, 4)
         = [i \in 1..4 |-> [j \in 1..4 |-> 4 * 16 * 16 * Scale(0) * phi[i][j]]]
=============================================================================
