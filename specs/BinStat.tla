------------------------------ MODULE BinStat ------------------------------
(* Binned statistics (accumulators.binned_statistic).  The constructor       *)
(* assigns every sample a bin per dimension; every later call groups values  *)
(* by that assignment.  Coordinates and edges are integers.  Image cases     *)
(* (Radial, RPhi) give a shape and a doubled origin; the squared doubled     *)
(* radius and the position of the azimuth among the quadrant borders         *)
(* -pi .. pi (0 .. 8, odd: strictly between) are then the coordinates.       *)
EXTENDS Out, FiniteSets

CONSTANT Cases       \* sequence of [kind, edges, pts, mask, shape, org]

VARIABLES case, next, where
vars == <<case, next, where>>

C == Cases[case]
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Phi(dy, dx) ==
  CASE dy < 0 /\ dx < 0 -> 1 [] dy < 0 /\ dx = 0 -> 2 [] dy < 0 /\ dx > 0 -> 3
    [] dy = 0 /\ dx >= 0 -> 4 [] dy > 0 /\ dx > 0 -> 5 [] dy > 0 /\ dx = 0 -> 6
    [] dy > 0 /\ dx < 0 -> 7 [] dy = 0 /\ dx < 0 -> 8

\* image pixels in row-major order, as coordinate tuples
NPts == IF C.kind = "plain" THEN Len(C.pts) ELSE C.shape[1] * C.shape[2]
Point(i) ==
  IF C.kind = "plain" THEN C.pts[i]
  ELSE LET r == (i - 1) \div C.shape[2]
           c == (i - 1) % C.shape[2]
           dy == 2 * r - C.org[1]
           dx == 2 * c - C.org[2]
       IN IF C.kind = "radial" THEN <<dy * dy + dx * dx>> ELSE <<dy * dy + dx * dx, Phi(dy, dx)>>
Masked(i) == Len(C.mask) > 0 /\ C.mask[i] = 0

NB(d) == Len(C.edges[d]) - 1
\* 0 and n+1 are the outlier bins; the last bin holds its right edge
BinOf(x, e) ==
  LET n == Len(e) - 1 IN
  IF x < e[1] THEN 0
  ELSE IF x > e[n + 1] THEN n + 1
  ELSE IF x = e[n + 1] THEN n
  ELSE CHOOSE b \in 1 .. n : e[b] <= x /\ x < e[b + 1]

Init == case \in DOMAIN Cases /\ next = 1 /\ where = <<>>

Assign ==
  /\ next <= NPts
  /\ where' = Append(where,
        [d \in DOMAIN C.edges |-> IF Masked(next) THEN 0 ELSE BinOf(Point(next)[d], C.edges[d])])
  /\ next' = next + 1
  /\ UNCHANGED case

Inside(w) == \A d \in DOMAIN w : w[d] \in 1 .. NB(d)
Cells == {where[i] : i \in {j \in DOMAIN where : Inside(where[j])}}
RECURSIVE Members(_, _)
Members(w, i) == IF i > Len(where) THEN <<>>
                 ELSE (IF where[i] = w THEN <<i>> ELSE <<>>) \o Members(w, i + 1)

\* any number of calls follow; they all see this partition and no other
Done ==
  /\ next = NPts + 1
  /\ Emit([case |-> case, where |-> where, cells |-> {<<w, Members(w, 1)>> : w \in Cells}])
  /\ next' = next + 1
  /\ UNCHANGED <<case, where>>

Next == Assign \/ Done
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* every unmasked point between the outermost edges is in exactly one bin,
\* and the bin's edges enclose it
Partition == \A i \in DOMAIN where : \A d \in DOMAIN C.edges :
   LET x == Point(i)[d] e == C.edges[d] w == where[i][d] IN
   /\ w \in 0 .. NB(d) + 1
   /\ (~Masked(i) /\ e[1] <= x /\ x <= e[Len(e)]) <=> (w \in 1 .. NB(d))
   /\ w \in 1 .. NB(d) => e[w] <= x /\ x <= e[w + 1] /\ (x = e[w + 1] => w = NB(d))
===========================================================================
