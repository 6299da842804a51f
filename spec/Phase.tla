-------------------------------- MODULE Phase --------------------------------
(***************************************************************************)
(* The phase whose gradient is a field of centers of mass (the rows and    *)
(* columns of com), by Fourier integration. Fields have periods 1, 2 or 4  *)
(* in both directions: the roots of unity are then 1, i, -1 and -i, and    *)
(* everything is exact: complex numbers are pairs <<re, im>> of integers.  *)
(* The regularization is 2 pi R / 16.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Times(k, a) == <<k * a[1], k * a[2]>>
Power(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>>
              [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN <<0, 0>> ELSE Add(f[a], Sum(f, a + 1, b))
\* f is a function of (row, column) from 0
Sum2(f, m, n) == Sum([y \in 0..(m - 1) |-> Sum([x \in 0..(n - 1) |-> f[<<y, x>>]], 0, n - 1)],
                     0, m - 1)
Grid(m, n) == (0..(m - 1)) \X (0..(n - 1))
\* The real field c (m rows of n), at the frequency <<b, a>>
Fourier(c, m, n) == TLCEval([f \in Grid(m, n) |->
    Sum2([p \in Grid(m, n) |-> Times(c[p[1] + 1][p[2] + 1],
            Power(-(f[1] * p[1] * (4 \div m) + f[2] * p[2] * (4 \div n))))], m, n)])
\* 4 times the frequency, as a number from -2 to 1
Frequency(b, m) == (IF 2 * b >= m THEN b - m ELSE b) * (4 \div m)

\* The components are rotated by q quarter turns, after a flip
Cos(q) == Power(q)[1]
Sin(q) == Power(q)[2]
Turned(com, q, flip, m, n) ==
    LET At(k, y, x) == com[k][y][x]
        X(y, x) == Cos(q) * At(1, y, x) + (IF flip THEN 1 ELSE -1) * Sin(q) * At(2, y, x)
        Y(y, x) == Sin(q) * At(1, y, x) + (IF flip THEN -1 ELSE 1) * Cos(q) * At(2, y, x)
    IN <<[y \in 1..m |-> [x \in 1..n |-> X(y, x)]], [y \in 1..m |-> [x \in 1..n |-> Y(y, x)]]>>

\* A multiple of all r * r + k * k, where k is a sum of two squares of frequencies
Scale(r) == CASE r = 0 -> 1600 [] r = 1 -> 2210 [] OTHER -> 19720

\* 2 pi m n Scale(r) times the phase: m rows of n integers
Phase(com, q, flip, r, m, n) ==
    LET t == Turned(com, q, flip, m, n)
        Fx == Fourier(t[1], m, n)
        Fy == Fourier(t[2], m, n)
        L == Scale(r)
        Term == TLCEval([f \in Grid(m, n) |->
            LET b == Frequency(f[1], m)
                a == Frequency(f[2], n)
                k == a * a + b * b
            IN IF k = 0 THEN <<0, 0>>
               ELSE Times(4 * (L \div (r * r + k * k)),
                          Mul(Add(Times(b, Fx[f]), Times(a, Fy[f])), <<r, -k>>))])
    IN [y \in 1..m |-> [x \in 1..n |->
          Sum2([f \in Grid(m, n) |-> Mul(Term[f],
                  Power(f[1] * (y - 1) * (4 \div m) + f[2] * (x - 1) * (4 \div n)))], m, n)[1]]]
=============================================================================
