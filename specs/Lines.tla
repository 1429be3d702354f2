------------------------------- MODULE Lines --------------------------------
(* skbeam.core.fitting.lineshapes: peak profiles and photon counting          *)
(* distributions, as far as they are rational; the transcendental factors     *)
(* (1/pi, exp of a rational, erfc of a rational over sqrt 2) are put on by    *)
(* the harness.                                                               *)
(* op "peak": position x, centre and width in units of 1/q, whole numbers.    *)
(* op "count": the probability of k photons, one photon more at each step,    *)
(*   mean kn/kd, modes mn/md (mn = 0: Poisson, no end of modes).              *)
EXTENDS Out, FiniteSets
CONSTANTS Cases
VARIABLES c, k, p, s
vars == <<c, k, p, s>>
A == Cases[c]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(a, b) == LET g == Gcd(IF a < 0 THEN -a ELSE a, b) IN <<a \div g, b \div g>>
Times(u, v) == LET x == Q(u[1], v[2]) y == Q(v[1], u[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Plus(u, v) == LET g == Gcd(u[2], v[2]) IN Q((u[1] * (v[2] \div g)) + (v[1] * (u[2] \div g)), u[2] * (v[2] \div g))
Le(u, v) == u[1] * v[2] <= v[1] * u[2]
RECURSIVE Power(_, _)
Power(u, n) == IF n = 0 THEN <<1, 1>> ELSE Times(u, Power(u, n - 1))
RECURSIVE Choose(_, _)
Choose(n, m) == IF m = 0 THEN 1 ELSE (Choose(n - 1, m - 1) * n) \div m

\* ------------------------------------------------------------------- peaks
X == A.x[k + 1]
U(x) == x - A.c                                  \* signed distance to centre
Lor(x) == Q(A.s * A.s, (A.s * A.s) + (U(x) * U(x)))
Gau(x) == Q(U(x) * U(x), 2 * (A.s * A.s))        \* minus the exponent
Arg(x) == Q(U(x), A.s)                           \* erfc of this over sqrt 2
Low(x) == IF U(x) < 0 THEN U(x) ELSE 0           \* a tail on one side only
Fall(x) == Q(Low(x) * A.gd, A.gn * A.s)
Mirror == (2 * A.c) - X
Symmetric == A.op = "peak" => Lor(X) = Lor(Mirror) /\ Gau(X) = Gau(Mirror) /\ Arg(X) = Q(-U(Mirror), A.s)
Half == A.op = "peak" => (U(X) = A.s => Lor(X) = <<1, 2>> /\ Gau(X) = <<1, 2>>)
Centre == A.op = "peak" => (Le(Lor(X), <<1, 1>>) /\ ((U(X) = 0) <=> (Lor(X) = <<1, 1>>)))

\* ----------------------------------------------------------------- photons
Poisson == A.mn = 0
\* P(k + 1) / P(k)
Ratio(j) == IF Poisson THEN Q(A.kn, A.kd * (j + 1))
            ELSE Times(Q((j * A.md) + A.mn, A.md * (j + 1)), Q(A.kn * A.md, (A.kn * A.md) + (A.mn * A.kd)))
Whole == ~Poisson /\ A.md = 1 /\ A.kd = 1
\* the probability of no photon, where rational
Zero == Power(Q(A.mn, A.kn + A.mn), A.mn)
Init == /\ c \in 1 .. Len(Cases)
        /\ k = 0 /\ p = <<1, 1>> /\ s = <<1, 1>>
Count == /\ A.op = "count" /\ k < A.n
         /\ k' = k + 1 /\ p' = Times(p, Ratio(k)) /\ s' = IF Whole THEN Plus(s, p') ELSE s
         /\ UNCHANGED c
Move == /\ A.op = "peak" /\ k + 1 < Len(A.x)
        /\ k' = k + 1 /\ UNCHANGED <<c, p, s>>
Next == Count \/ Move
Spec == Init /\ [][Next]_vars
\* one photon at a time comes to the closed form, and the whole is never
\* more than certain
Closed == (A.op = "count" /\ Whole) =>
             /\ p = Times(<<Choose(k + A.mn - 1, k), 1>>, Power(Q(A.kn, A.kn + A.mn), k))
             /\ Le(Times(s, Zero), <<1, 1>>)
\* one mode: Bose-Einstein, always falling; no mode ever beats the mean twice
Falls == (A.op = "count" /\ Whole /\ A.mn = 1) => Le(p, <<1, 1>>)
\* probabilities rise up to the mean and fall from there
Rise == (A.op = "count" /\ k * A.kd >= A.kn) => Le(Ratio(k), <<1, 1>>)
Report == IF A.op = "peak" THEN Emit([case |-> c, k |-> k, lor |-> Lor(X), gau |-> Gau(X), arg |-> Arg(X), fall |-> Fall(X)])
          ELSE Emit([case |-> c, k |-> k, p |-> p, zero |-> IF Whole THEN Zero ELSE <<0, 0>>])
=============================================================================
