------------------------------ MODULE RingPick ------------------------------
(* roi.auto_find_center_rings.  Concentric circles of edge points; each round *)
(* takes the circle with the most points (the largest, as all of them are     *)
(* complete), notes its radius and removes its points.                        *)
EXTENDS Out, FiniteSetsExt, SequencesExt
CONSTANTS Radii
VARIABLES rings, most, left, found
vars == <<rings, most, left, found>>
Init == /\ rings \in (SUBSET Radii) \ {{}} /\ most \in 1 .. Cardinality(rings)
        /\ left = rings /\ found = <<>>
Pick == /\ Len(found) < most
        /\ found' = Append(found, Max(left)) /\ left' = left \ {Max(left)}
        /\ UNCHANGED <<rings, most>>
Next == Pick
Spec == Init /\ [][Next]_vars
\* no circle twice; none left is larger than one found
Once == /\ \A i, j \in 1 .. Len(found) : i < j => found[i] > found[j]
        /\ \A i \in 1 .. Len(found), r \in left : found[i] > r
        /\ left \cup {found[i] : i \in 1 .. Len(found)} = rings
Report == Len(found) < most \/ Emit([rings |-> SetToSortSeq(rings, LAMBDA a, b : a < b), found |-> found])
=============================================================================
