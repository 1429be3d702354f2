------------------------------- MODULE XrfFit -------------------------------
(* skbeam.core.fitting.xrf_model: spectra as sums of known profiles.          *)
(* op "nnls": the columns of A (m x n integers) and spectra ys; the amounts   *)
(*   x >= 0 with least sum of w (y - A x)^2, in exact arithmetic: amounts and *)
(*   the sum of squares that remains, over a common denominator.              *)
(* op "trim": positions of the points of x within [lo, hi].                   *)
(* op "range": channels between two energies, calibration a0 + a1 i (in 16ths)*)
EXTENDS Out, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Cases
VARIABLES c, k
vars == <<c, k>>
Case == Cases[c]
Init == c \in 1 .. Len(Cases) /\ k \in 1 .. (IF Cases[c].op = "nnls" THEN Len(Cases[c].ys) ELSE 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

M == Len(Case.a)
N == Len(Case.a[1])
W(i) == Case.w[i]
Y(i) == Case.ys[k][i]
Rows == 1 .. M
Dot(i, j) == MapThenSumSet(LAMBDA r : W(r) * Case.a[r][i] * Case.a[r][j], Rows)
B(j) == MapThenSumSet(LAMBDA r : W(r) * Case.a[r][j] * Y(r), Rows)
YY == MapThenSumSet(LAMBDA r : W(r) * Y(r) * Y(r), Rows)
\* a system of at most three equations, by Cramer's rule
Det1(m) == m[1][1]
Det2(m) == (m[1][1] * m[2][2]) - (m[1][2] * m[2][1])
Det3(m) == ((m[1][1] * ((m[2][2] * m[3][3]) - (m[2][3] * m[3][2])))
          - (m[1][2] * ((m[2][1] * m[3][3]) - (m[2][3] * m[3][1]))))
          + (m[1][3] * ((m[2][1] * m[3][2]) - (m[2][2] * m[3][1])))
Det(m) == CASE Len(m) = 0 -> 1 [] Len(m) = 1 -> Det1(m) [] Len(m) = 2 -> Det2(m) [] Len(m) = 3 -> Det3(m)
Gram(s) == [i \in 1 .. Len(s) |-> [j \in 1 .. Len(s) |-> Dot(s[i], s[j])]]
With(s, q) == [i \in 1 .. Len(s) |-> [j \in 1 .. Len(s) |-> IF j = q THEN B(s[i]) ELSE Dot(s[i], s[j])]]
\* amounts with support S: <<numerators by column, denominator>>
Amounts(S) == LET s == SetToSortSeq(S, <)
                  d == Det(Gram(s))
              IN <<[j \in 1 .. N |-> IF j \in S THEN Det(With(s, CHOOSE q \in 1 .. Len(s) : s[q] = j)) ELSE 0], d>>
\* what a column would still gain, times the denominator
Gain(x, j) == (x[2] * B(j)) - MapThenSumSet(LAMBDA i : Dot(i, j) * x[1][i], 1 .. N)
Good(S) == LET x == Amounts(S)
           IN /\ x[2] > 0
              /\ \A j \in 1 .. N : x[1][j] >= 0 /\ Gain(x, j) <= 0
Best == Amounts(CHOOSE S \in SUBSET (1 .. N) : Good(S))
Left(x) == (YY * x[2]) - MapThenSumSet(LAMBDA j : x[1][j] * B(j), 1 .. N)
Full == Det(Gram([j \in 1 .. N |-> j])) > 0
\* there is a best answer, none of small whole amounts is better, and amounts
\* that explain the spectrum entirely are found
Exists == Case.op = "nnls" /\ Full => \E S \in SUBSET (1 .. N) : Good(S)
Sq(z) == MapThenSumSet(LAMBDA r : W(r) * (Y(r) - MapThenSumSet(LAMBDA j : Case.a[r][j] * z[j], 1 .. N)) * (Y(r) - MapThenSumSet(LAMBDA j : Case.a[r][j] * z[j], 1 .. N)), Rows)
Least == Case.op = "nnls" /\ Full => LET x == Best IN \A z \in [1 .. N -> 0 .. 2] : Sq(z) * x[2] >= Left(x)
Exact == Case.op = "nnls" /\ Full => LET x == Best IN \A z \in [1 .. N -> 0 .. 2] : Sq(z) = 0 => \A j \in 1 .. N : x[1][j] = z[j] * x[2]
Sum(f(_)) == MapThenSumSet(f, Rows)
\* sum of squares about the mean, times the number of channels
SST == (M * Sum(LAMBDA r : Y(r) * Y(r))) - (Sum(LAMBDA r : Y(r)) * Sum(LAMBDA r : Y(r)))

Kept == SetToSortSeq({i \in 1 .. Len(Case.x) : Case.lo <= Case.x[i] /\ Case.x[i] <= Case.hi}, <)
Near(e) == ((2 * (e - Case.a0)) + Case.a1) \div (2 * Case.a1)
Chan == SetToSortSeq({i \in 0 .. (Case.n - 1) : Near(Case.lo) <= i /\ i <= Near(Case.hi)}, <)
Report == CASE Case.op = "nnls" -> (IF Full THEN Emit([case |-> c, k |-> k, x |-> Best[1], den |-> Best[2], left |-> Left(Best), sst |-> SST])
                                    ELSE Emit([case |-> c, k |-> k, x |-> <<>>]))
            [] Case.op = "trim" -> Emit([case |-> c, kept |-> Kept])
            [] Case.op = "range" -> Emit([case |-> c, kept |-> Chan])
=============================================================================
