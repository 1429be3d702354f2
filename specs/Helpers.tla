------------------------------ MODULE Helpers -------------------------------
(* The binning and geometry helpers of utils, as functions of integers in a   *)
(* unit the harness chooses.  One case per state.                             *)
(*  edges : bin_edges with three of (min, max, nbins, step); -1000 = not given*)
(*  bin   : bin_1D, values summed and counted per bin, last edge closed       *)
(*  grid  : radial_grid / angle_grid: squared distance and direction          *)
EXTENDS Out, FiniteSetsExt
CONSTANTS Cases
VARIABLES c
None == -1000
Given(x) == x # None
NGiven(a) == Cardinality({k \in {"min", "max", "nbins", "step"} : Given(a[k])})
Refused == <<"refused">>
Edges(a) ==
    IF NGiven(a) # 3 THEN Refused
    ELSE IF Given(a.min) /\ Given(a.max) /\ a.max <= a.min THEN Refused
    ELSE IF Given(a.nbins) /\ a.nbins <= 0 THEN Refused
    ELSE IF ~ Given(a.step)
         THEN [k \in 1 .. a.nbins + 1 |-> <<(a.min * a.nbins) + ((a.max - a.min) * (k - 1)), a.nbins>>]
    ELSE IF ~ Given(a.nbins)
         THEN IF a.step > a.max - a.min THEN Refused
              ELSE [k \in 1 .. ((a.max - a.min) \div a.step) + 1 |-> <<a.min + ((k - 1) * a.step), 1>>]
    ELSE IF ~ Given(a.max) THEN [k \in 1 .. a.nbins + 1 |-> <<a.min + ((k - 1) * a.step), 1>>]
    ELSE [k \in 1 .. a.nbins + 1 |-> <<a.max - ((a.nbins + 1 - k) * a.step), 1>>]
\* what the documentation promises about them
EdgesOK(a, e) == e # Refused =>
    /\ Given(a.nbins) => Len(e) = a.nbins + 1
    /\ Given(a.min) => \A k \in 1 .. Len(e) : e[k][1] >= a.min * e[k][2]
    /\ Given(a.max) => \A k \in 1 .. Len(e) : e[k][1] <= a.max * e[k][2]
    /\ (Given(a.min) /\ Given(a.max) /\ Given(a.step)) => a.max - e[Len(e)][1] < a.step
    /\ \A k \in 1 .. Len(e) - 1 : e[k + 1][1] > e[k][1]

\* bins of width w from lo, n of them; the last one is closed above
Bin(a, x) == IF x < a.lo \/ x > a.lo + (a.n * a.w) THEN 0
             ELSE IF x = a.lo + (a.n * a.w) THEN a.n ELSE ((x - a.lo) \div a.w) + 1
InBin(a, b) == {j \in 1 .. Len(a.x) : Bin(a, a.x[j]) = b}
Binned(a) == [b \in 1 .. a.n |-> <<MapThenSumSet(LAMBDA j : a.y[j], InBin(a, b)), Cardinality(InBin(a, b))>>]
BinnedOK(a, r) == MapThenSumSet(LAMBDA b : r[b][2], 1 .. a.n)
                    = Cardinality({j \in 1 .. Len(a.x) : a.x[j] >= a.lo /\ a.x[j] <= a.lo + (a.n * a.w)})

\* pixel (i, j) counted from 0; sizes and centre in the same unit
Grid(a) == [i \in 1 .. a.rows |-> [j \in 1 .. a.cols |->
             LET y == a.py * ((2 * (i - 1)) - a.cy)
                 x == a.px * ((2 * (j - 1)) - a.cx)
             IN <<x, y, (x * x) + (y * y)>>]]

Answer(a) == IF a.op = "edges" THEN Edges(a) ELSE IF a.op = "bin" THEN Binned(a) ELSE Grid(a)
Init == c \in 1 .. Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Right == LET a == Cases[c] IN
    /\ a.op = "edges" => EdgesOK(a, Edges(a))
    /\ a.op = "bin" => BinnedOK(a, Binned(a))
Report == Emit([case |-> c, ans |-> Answer(Cases[c])])
=============================================================================
