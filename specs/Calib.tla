------------------------------- MODULE Calib --------------------------------
(* skbeam.core.calibration.  A powder pattern is a list of rings with heights *)
(* (in order of radius); the rings higher than a fraction of the highest are  *)
(* found; the k-th ring found is taken for the k-th reflection of the         *)
(* standard, at most `most` of them.                                          *)
(* Refinement of the centre: whatever the estimate, one refinement leads to   *)
(* the centre of the rings, and a refined centre stays.                       *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Cases, Offsets
VARIABLES mode, c, est
vars == <<mode, c, est>>
A == Cases[c]
Top == Max({A.heights[i] : i \in 1 .. Len(A.heights)})
Idx == [i \in 1 .. Len(A.heights) |-> i]
Found == SelectSeq(Idx, LAMBDA i : A.heights[i] * 1000 > A.permille * Top)
Count == Min({Len(Found), A.expected, A.most})
Pairs == [k \in 1 .. Count |-> <<Found[k], k>>]
\* too close to the limit to be told after sampling
Near == \E i \in 1 .. Len(A.heights) : LET d == (A.heights[i] * 1000) - (A.permille * Top) IN d < 100 * Top /\ d > -(100 * Top)

Init == \/ mode = "dist" /\ c \in 1 .. Len(Cases) /\ est = <<0, 0>>
        \/ mode = "centre" /\ c = 0 /\ est \in Offsets \X Offsets
\* est is the estimate less the true centre
Refine == mode = "centre" /\ c < 2 /\ c' = c + 1 /\ est' = <<0, 0>> /\ UNCHANGED mode
Next == Refine
Spec == Init /\ [][Next]_vars
Ordered == mode = "dist" => \A i, j \in 1 .. Len(Pairs) : i < j => Pairs[i][1] < Pairs[j][1]
Report == IF mode = "dist" THEN Emit([case |-> c, pairs |-> Pairs, near |-> Near])
          ELSE (c > 0 \/ Emit([start |-> est]))
=============================================================================
