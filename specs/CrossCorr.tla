----------------------------- MODULE CrossCorr -----------------------------
(* Masked spatial cross-correlation (correlation.CrossCorrelator).  For a    *)
(* region, the correlation at displacement d is taken over the pairs         *)
(* <<p, q>> of pixels of the region with q - p = d, p of the first image     *)
(* and q of the second.  The machine visits the regions in order of their    *)
(* label and, inside one, its pixels in row-major order, collecting pairs.   *)
EXTENDS Out, FiniteSets

CONSTANTS NR, NC, NIds       \* grid and labels: every labelling is explored

VARIABLES mask,    \* [pixel -> label], 0 is background
          ids,     \* labels still to do, ascending
          todo,    \* pixels of the current region still to visit
          pairs,   \* [displacement -> set of pairs], current region
          done     \* results of the finished regions
vars == <<mask, ids, todo, pairs, done>>

Pixels == (0 .. NR-1) \X (0 .. NC-1)
Region(m, i) == {p \in Pixels : m[p] = i}
Labels(m) == {m[p] : p \in Pixels} \ {0}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
First(S) == CHOOSE p \in S : \A q \in S : p = q \/ Before(p, q)

\* extent of the bounding box of a region
Ext(S, k) == Max({p[k] : p \in S}) - Min({p[k] : p \in S})
Disp(S) == (-Ext(S, 1) .. Ext(S, 1)) \X (-Ext(S, 2) .. Ext(S, 2))
Empty(S) == [d \in Disp(S) |-> {}]

Init == /\ mask \in [Pixels -> 0 .. NIds] /\ Labels(mask) # {}
        /\ ids = Labels(mask)
        /\ todo = Region(mask, Min(Labels(mask)))
        /\ pairs = Empty(todo)
        /\ done = <<>>

Visit ==
  /\ ids # {} /\ todo # {}
  /\ LET R == Region(mask, Min(ids)) IN
     \E p \in {First(todo)} :
        /\ todo' = todo \ {p}
        /\ pairs' = [d \in DOMAIN pairs |->
              LET q == <<p[1] + d[1], p[2] + d[2]>> IN
              IF q \in R THEN pairs[d] \cup {<<p, q>>} ELSE pairs[d]]
  /\ UNCHANGED <<mask, ids, done>>

Finish ==
  /\ ids # {} /\ todo = {}
  /\ LET i == Min(ids)
         rest == ids \ {i}
         R == Region(mask, i)
     IN /\ done' = Append(done, [id |-> i, h |-> Ext(R, 1), w |-> Ext(R, 2), region |-> R,
                                 cells |-> {<<d, pairs[d]>> : d \in DOMAIN pairs}])
        /\ ids' = rest
        /\ IF rest = {} THEN todo' = {} /\ pairs' = <<>>
           ELSE todo' = Region(mask, Min(rest)) /\ pairs' = Empty(Region(mask, Min(rest)))
        /\ rest = {} => Emit([mask |-> [r \in 1..NR |-> [c \in 1..NC |-> mask[<<r-1, c-1>>]]], done |-> done'])
  /\ UNCHANGED mask

Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars

\* every pair of pixels of the region is counted at exactly one displacement
Complete == (ids # {} /\ todo = {}) =>
   LET R == Region(mask, Min(ids)) IN
     /\ \A p, q \in R : <<p, q>> \in pairs[<<q[1] - p[1], q[2] - p[2]>>]
     /\ \A d \in DOMAIN pairs : \A pq \in pairs[d] : pq[2][1] - pq[1][1] = d[1] /\ pq[2][2] - pq[1][2] = d[2]
     \* exchanging the images mirrors the displacement
     /\ \A d \in DOMAIN pairs : Cardinality(pairs[d]) = Cardinality(pairs[<<-d[1], -d[2]>>])
     /\ Cardinality(pairs[<<0, 0>>]) = Cardinality(R)
===========================================================================
