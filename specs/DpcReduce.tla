----------------------------- MODULE DpcReduce ------------------------------
(* image_reduction: sums over the columns and the rows of a part of an image; *)
(* bad pixels count nothing.                                                  *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Cases
VARIABLES c, xline, yline, done
vars == <<c, xline, yline, done>>
A == Cases[c]
Bad == {<<A.bad[i][1], A.bad[i][2]>> : i \in 1 .. Len(A.bad)}
Val(r, k) == IF <<r, k>> \in Bad THEN 0 ELSE A.img[r + 1][k + 1]
Low(a, b) == IF a < b THEN a ELSE b
RowsOf == A.roi[1] .. (Low(A.roi[1] + A.roi[3], A.nr) - 1)
ColsOf == A.roi[2] .. (Low(A.roi[2] + A.roi[4], A.nc) - 1)
Init == /\ c \in 1 .. Len(Cases) /\ done = {}
        /\ xline = [k \in ColsOf |-> 0] /\ yline = [r \in RowsOf |-> 0]
\* row after row
Take == \E r \in RowsOf \ done :
        /\ \A q \in RowsOf \ done : r <= q
        /\ xline' = [k \in ColsOf |-> xline[k] + Val(r, k)]
        /\ yline' = [yline EXCEPT ![r] = MapThenSumSet(LAMBDA k : Val(r, k), ColsOf)]
        /\ done' = done \cup {r} /\ UNCHANGED c
Spec == Init /\ [][Take]_vars
\* the same counts both ways
Conserved == MapThenSumSet(LAMBDA k : xline[k], ColsOf) = MapThenSumSet(LAMBDA r : yline[r], RowsOf)
Flat(f, S) == LET o == SetToSortSeq(S, LAMBDA a, b : a < b) IN [i \in 1 .. Len(o) |-> f[o[i]]]
Report == done = RowsOf => Emit([case |-> c, x |-> Flat(xline, ColsOf), y |-> Flat(yline, RowsOf)])
=============================================================================
