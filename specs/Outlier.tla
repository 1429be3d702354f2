------------------------------- MODULE Outlier -------------------------------
(* mask.binned_outlier, mask.margin: which pixels survive.  Pixels are booked *)
(* in bins by their coordinate; a pixel is kept if it is at most alpha        *)
(* standard deviations from the mean of its bin (of the pixels the starting   *)
(* mask lets through).  All arithmetic is on integers: alpha = an / ad.       *)
EXTENDS Out, FiniteSets
CONSTANTS Cases
VARIABLES c, i, acc, keep
vars == <<c, i, acc, keep>>
Case == Cases[c]
N == Len(Case.val)
NB == Len(Case.edges) - 1
\* bins are closed below, the last one on both sides
BinOf(x) == CHOOSE b \in 1 .. NB : x >= Case.edges[b] /\ (x < Case.edges[b+1] \/ b = NB)
Init == /\ c \in 1 .. Len(Cases) /\ i = 1
        /\ acc = [b \in 1 .. Len(Cases[c].edges) - 1 |-> <<0, 0, 0>>]
        /\ keep = << >>
Book == /\ i <= N
        /\ LET b == BinOf(Case.r[i]) v == Case.val[i] IN
           acc' = IF Case.m[i] THEN [acc EXCEPT ![b] = <<@[1] + 1, @[2] + v, @[3] + (v * v)>>] ELSE acc
        /\ i' = i + 1 /\ UNCHANGED <<c, keep>>
\* (n v - s)^2 <= alpha^2 (n s2 - s^2)
Margin(j) == LET b == BinOf(Case.r[j]) a == acc[b] v == Case.val[j]
                 d == (a[1] * v) - a[2]
                 var == (a[1] * a[3]) - (a[2] * a[2])
             IN ((Case.an[b] * Case.an[b]) * var) - ((Case.ad * Case.ad) * (d * d))
Flat(j) == LET a == acc[BinOf(Case.r[j])] IN (a[1] * a[3]) - (a[2] * a[2]) = 0
Verdict(j) == IF ~Case.m[j] THEN "out"
              ELSE IF Margin(j) > 0 \/ Flat(j) THEN "in"
              ELSE IF Margin(j) < 0 THEN "out" ELSE "edge"
Judge == /\ i > N /\ Len(keep) < N
         /\ keep' = Append(keep, Verdict(Len(keep) + 1))
         /\ UNCHANGED <<c, i, acc>>
Next == Book \/ Judge
Spec == Init /\ [][Next]_vars
\* with alpha >= 1 no bin loses all of its pixels, and masked pixels never come back
Sound == Len(keep) = N => \A j \in 1 .. N : (keep[j] # "out" => Case.m[j])
Survivor == Len(keep) = N => \A b \in 1 .. NB :
    (Case.an[b] >= Case.ad /\ \E j \in 1 .. N : Case.m[j] /\ BinOf(Case.r[j]) = b)
        => \E j \in 1 .. N : BinOf(Case.r[j]) = b /\ keep[j] # "out"
Report == Len(keep) = N => Emit([case |-> c, keep |-> keep])
==============================================================================
