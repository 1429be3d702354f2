------------------------------- MODULE Roi -------------------------------
(* roi.rectangles, bar, box, rings, segmented_rings: regions of interest are *)
(* painted one after another on a canvas of background.  Lengths are in      *)
(* quarters of a pixel, angles in steps of 45 degrees.                       *)
(* A case: kind; nr, nc the canvas; regs the regions in the order of their   *)
(* labels; cr, cc the centre (quarters); excl: overlapping regions are       *)
(* refused.                                                                  *)
(*   rect  <<r, c, h, w>>   pixels, any sign       bar   <<lo, hi, axis>>    *)
(*   ring  <<inner, outer>> quarters               seg   <<in, out, s0, s1>> *)
EXTENDS Out, FiniteSets
CONSTANTS Cases
VARIABLES c, k, lab, status
vars == <<c, k, lab, status>>

Case == Cases[c]
Rows == 0 .. Case.nr - 1
Cols == 0 .. Case.nc - 1
Dy(r) == (4 * r) - Case.cr
Dx(x) == (4 * x) - Case.cc
R2(r, x) == (Dy(r) * Dy(r)) + (Dx(x) * Dx(x))
Abs(n) == IF n < 0 THEN -n ELSE n

\* twice the octant of a direction: even numbers are rays, odd ones sectors
Dir(r, x) ==
    LET y == Dy(r) e == Dx(x) IN
    CASE y = 0 /\ e > 0 -> 0      [] y > 0 /\ e > y -> 1
      [] y > 0 /\ e = y -> 2      [] y > 0 /\ e < y /\ e > 0 -> 3
      [] y > 0 /\ e = 0 -> 4      [] y > 0 /\ e < 0 /\ -e < y -> 5
      [] y > 0 /\ e < 0 /\ -e = y -> 6   [] y > 0 /\ e < 0 /\ -e > y -> 7
      [] y = 0 /\ e < 0 -> 8      [] y < 0 /\ e < y -> 9
      [] y < 0 /\ e = y -> 10     [] y < 0 /\ e > y /\ e < 0 -> 11
      [] y < 0 /\ e = 0 -> 12     [] y < 0 /\ e > 0 /\ e < -y -> 13
      [] y < 0 /\ e > 0 /\ e = -y -> 14  [] y < 0 /\ e > -y -> 15
      [] OTHER -> -1
\* is sector d (odd) between the rays s0 and s1 (45 degree steps, s1 <= s0 + 8)
InSector(d, s0, s1) == \E m \in -6 .. 6 : (2 * s0) < (d + (16 * m)) /\ (d + (16 * m)) < (2 * s1)
Radial(g, r, x) == R2(r, x) >= (g[1] * g[1]) /\ R2(r, x) < (g[2] * g[2])
Certain(g, r, x) == Dir(r, x) >= 0 /\ (Dir(r, x) % 2) = 1
\* a pixel on a ray may go to either side of it
Touches(g, r, x) ==
    IF Dir(r, x) = -1 THEN TRUE
    ELSE InSector((Dir(r, x) + 15) % 16, g[3], g[4]) \/ InSector((Dir(r, x) + 1) % 16, g[3], g[4])
In(g, r, x) ==
    CASE Case.kind = "rect" -> r >= g[1] /\ r < g[1] + g[3] /\ x >= g[2] /\ x < g[2] + g[4]
      [] Case.kind = "bar" -> LET v == IF g[3] = 0 THEN r ELSE x IN (4 * v) >= g[1] /\ (4 * v) < g[2]
      [] Case.kind = "ring" -> Radial(g, r, x)
      [] Case.kind = "seg" -> Radial(g, r, x) /\ Certain(g, r, x) /\ InSector(Dir(r, x), g[3], g[4])

Init == /\ c \in 1 .. Len(Cases)
        /\ k = 0
        /\ lab = [p \in (0 .. Cases[c].nr - 1) \X (0 .. Cases[c].nc - 1) |-> 0]
        /\ status = "painting"
Paint ==
    /\ status = "painting" /\ k < Len(Case.regs)
    /\ LET g == Case.regs[k + 1]
           mine == {p \in Rows \X Cols : In(g, p[1], p[2])}
       IN IF \E p \in mine : lab[p] # 0
          THEN status' = (IF Case.excl THEN "overlap" ELSE "clash") /\ UNCHANGED <<lab, k>>
          ELSE /\ lab' = [p \in Rows \X Cols |-> IF p \in mine THEN k + 1 ELSE lab[p]]
               /\ k' = k + 1
               /\ UNCHANGED status
    /\ UNCHANGED c
Finish == status = "painting" /\ k = Len(Case.regs) /\ status' = "done" /\ UNCHANGED <<c, k, lab>>
Next == Paint \/ Finish
Spec == Init /\ [][Next]_vars

\* a pixel carries the number of the region it lies in, and no other
Faithful == status = "done" => \A p \in Rows \X Cols :
    /\ lab[p] # 0 => In(Case.regs[lab[p]], p[1], p[2])
    /\ lab[p] = 0 => \A j \in 1 .. Len(Case.regs) : ~In(Case.regs[j], p[1], p[2])
\* regions given from the centre outwards never meet
NoClash == status # "clash"
\* what is allowed for a pixel: one label, or the labels on both sides of a ray
May(p) == IF Case.kind = "seg" /\ ~Certain(Case.regs[1], p[1], p[2])
          THEN {0} \cup {j \in 1 .. Len(Case.regs) : Radial(Case.regs[j], p[1], p[2]) /\ Touches(Case.regs[j], p[1], p[2])}
          ELSE {lab[p]}
Report == status \in {"done", "overlap"} =>
    Emit([case |-> c, status |-> status,
          lab |-> IF status = "done" THEN [r \in 1 .. Case.nr |-> [x \in 1 .. Case.nc |-> May(<<r - 1, x - 1>>)]] ELSE << >>])
=============================================================================
