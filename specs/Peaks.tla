------------------------------- MODULE Peaks --------------------------------
(* skbeam.core.feature and skbeam.core.spectroscopy.                          *)
(* A pipeline on a sampled curve: candidates are filtered by height, by       *)
(* number, then each is looked at through a window that is cut at the ends of *)
(* the data (the refine function may reject it).  Indices start at 0.         *)
(* Other operations: parabola through noisy points, integration of regions,   *)
(* alignment of spectra.                                                      *)
EXTENDS Out, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Cases
VARIABLES c, stage, live, seen
vars == <<c, stage, live, seen>>
A == Cases[c]
Y(i) == A.y[i + 1]
N == Len(A.y)
Lo(i) == IF i - A.window < 0 THEN 0 ELSE i - A.window
Hi(i) == IF i + A.window > N - 1 THEN N - 1 ELSE i + A.window
Win(i) == Lo(i) .. Hi(i)
High(i) == Max({Y(k) : k \in Win(i)}) - Min({Y(k) : k \in Win(i)})
\* the refine function of the replay: location and height of the window, or rejection
SumWin(i) == MapThenSumSet(Y, Win(i))
Rejects(i) == SumWin(i) % A.reject = 0

Init == c \in 1 .. Len(Cases) /\ stage = 0 /\ live = (IF A.op = "pipe" THEN A.cands ELSE <<>>) /\ seen = <<>>
ByHeight == A.op = "pipe" /\ stage = 0 /\ stage' = 1 /\ live' = SelectSeq(live, LAMBDA i : High(i) > A.thresh) /\ UNCHANGED <<c, seen>>
\* the heights of the candidates differ, so the order is determined
Sorted == SortSeq(live, LAMBDA i, j : Y(i) > Y(j))
ByNumber == A.op = "pipe" /\ stage = 1 /\ stage' = 2 /\ live' = (IF Len(live) <= A.most THEN Sorted ELSE SubSeq(Sorted, 1, A.most)) /\ UNCHANGED <<c, seen>>
Refine == A.op = "pipe" /\ stage >= 2 /\ stage < 2 + Len(live) /\ stage' = stage + 1
          /\ LET i == live[stage - 1] IN
             seen' = (IF Rejects(i) THEN seen ELSE Append(seen, <<i, Lo(i), Hi(i), SumWin(i)>>)) /\ UNCHANGED <<c, live>>
Next == ByHeight \/ ByNumber \/ Refine
Spec == Init /\ [][Next]_vars

Subset == A.op = "pipe" => Range(live) \subseteq Range(A.cands) /\ Cardinality(Range(live)) = Len(live)
Bound == A.op = "pipe" /\ stage >= 2 => Len(live) <= A.most
InOrder == A.op = "pipe" /\ stage >= 2 => \A i, j \in 1 .. Len(live) : i < j => Y(live[i]) > Y(live[j])
Inside == \A k \in 1 .. Len(seen) : seen[k][2] >= 0 /\ seen[k][3] < N /\ seen[k][2] <= seen[k][1] /\ seen[k][1] <= seen[k][3]

\* --- parabola b0 (x - b1)^2 + b2 plus e times a pattern orthogonal to it ---
Dot(u, v) == MapThenSumSet(LAMBDA i : u[i] * v[i], 1 .. Len(u))
Ones == [i \in 1 .. Len(A.y) |-> 1]
SSerr == A.e * A.e * Dot(A.pattern, A.pattern)
\* n times the total sum of squares
SStotN == (Len(A.y) * Dot(A.y, A.y)) - (Dot(A.y, Ones) * Dot(A.y, Ones))
Orth == \A k \in 0 .. 2 : MapThenSumSet(LAMBDA i : A.pattern[i] * (IF k = 0 THEN 1 ELSE IF k = 1 THEN i ELSE i * i), 1 .. Len(A.y)) = 0
\* R^2 < p / q  <=>  (SStot - SSerr) q < p SStot
Reject == (A.q * (SStotN - (Len(A.y) * SSerr))) < A.p * SStotN
Tie == (A.q * (SStotN - (Len(A.y) * SSerr))) = A.p * SStotN

\* --- integration ----------------------------------------------------------
\* samples in increasing order
Up == A.x[1] < A.x[Len(A.x)]
XS == IF Up THEN A.x ELSE Reverse(A.x)
YS == IF Up THEN A.y ELSE Reverse(A.y)
Mono == \/ \A i \in 1 .. Len(A.x) - 1 : A.x[i] < A.x[i + 1]
        \/ \A i \in 1 .. Len(A.x) - 1 : A.x[i] > A.x[i + 1]
FirstAt(v) == Min({i \in 1 .. Len(XS) : XS[i] >= v})
Refused == \/ ~ Mono
           \/ Len(A.mins) # Len(A.maxs)
           \/ Len(A.x) # Len(A.y)
           \/ \E i \in 1 .. Min({Len(A.mins), Len(A.maxs)}) : A.mins[i] >= A.maxs[i]
           \/ \E i \in 1 .. Len(A.mins) : A.mins[i] < XS[1]
           \/ \E i \in 1 .. Len(A.maxs) : A.maxs[i] > XS[Len(XS)]
\* six times the integral of p0 + p1 x + p2 x^2 over the samples from the
\* first one not below the lower bound to the first one not below the upper
Poly6(v) == ((6 * A.p0) * v) + (((3 * A.p1) * v) * v) + ((((2 * A.p2) * v) * v) * v)
One6(k) == LET a == FirstAt(A.mins[k]) b == FirstAt(A.maxs[k]) IN
           IF b - a = 1 THEN (3 * (YS[a] + YS[b])) * (XS[b] - XS[a])
           ELSE Poly6(XS[b]) - Poly6(XS[a])
Integral6 == MapThenSumSet(One6, 1 .. Len(A.mins))

\* --- alignment: peak to zero, width to that of the first spectrum -----------
Aligned == [k \in 1 .. Len(A.peaks) |->
              [i \in 1 .. Len(A.energies[k]) |-> <<(A.energies[k][i] - A.peaks[k][1]) * A.peaks[1][2], A.peaks[k][2]>>]]

Ans == IF A.op = "pipe" THEN <<stage, live, seen>>
       ELSE IF A.op = "quad" THEN <<Reject, Tie, Orth>>
       ELSE IF A.op = "integral" THEN (IF Refused THEN <<"refused">> ELSE <<Integral6>>)
       ELSE Aligned
Report == Emit([case |-> c, ans |-> Ans])
=============================================================================
