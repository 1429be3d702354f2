----------------------------- MODULE CdiSupport -----------------------------
(* Boxes and disks around the centre (N \div 2) of an array; radii in        *)
(* quarters of a pixel.                                                      *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Shapes, Radii
VARIABLES s, r4, box, disk
vars == <<s, r4, box, disk>>
Shape == Shapes[s]
Cells == IF Len(Shape) = 1 THEN {<<i>> : i \in 0 .. (Shape[1] - 1)}
         ELSE IF Len(Shape) = 2 THEN (0 .. (Shape[1] - 1)) \X (0 .. (Shape[2] - 1))
         ELSE (0 .. (Shape[1] - 1)) \X (0 .. (Shape[2] - 1)) \X (0 .. (Shape[3] - 1))
Off(q, d) == q[d] - (Shape[d] \div 2)
InBox(q) == \A d \in 1 .. Len(Shape) : ((4 * Off(q, d)) >= -r4) /\ ((4 * Off(q, d)) < r4)
RECURSIVE Sq(_, _)
Sq(q, d) == IF d = 0 THEN 0 ELSE (Off(q, d) * Off(q, d)) + Sq(q, d - 1)
InDisk(q) == (16 * Sq(q, Len(Shape))) < (r4 * r4)
Init == /\ s \in 1 .. Len(Shapes) /\ r4 \in Radii
        /\ box = {q \in Cells : InBox(q)}
        /\ disk = {q \in Cells : InDisk(q)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* the open ball lies in the half-open cube but for its upper faces
Inside == \A q \in disk : q \in box
Grow == r4 >= 4 => \E q \in box : \A d \in 1 .. Len(Shape) : Off(q, d) = 0
Report == Emit([s |-> s, r4 |-> r4, box |-> SetToSeq(box), disk |-> SetToSeq(disk), sq |-> SetToSeq({<<q, Sq(q, Len(Shape))>> : q \in Cells})])
=============================================================================
