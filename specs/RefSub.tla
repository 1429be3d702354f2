------------------------------- MODULE RefSub -------------------------------
(* utils.subtract_reference_images: images arrive in order, each one either a *)
(* reference or a measurement.  A measurement is reported minus the latest    *)
(* reference before it; the series has to start with a reference.             *)
EXTENDS Out, Sequences
CONSTANT MaxLen
VARIABLES flags, ref, out
vars == <<flags, ref, out>>
Init == flags = << >> /\ ref = 0 /\ out = << >>
Reference == /\ flags' = Append(flags, TRUE) /\ ref' = Len(flags) + 1 /\ out' = out
Measure == /\ ref # 0
           /\ flags' = Append(flags, FALSE) /\ ref' = ref
           /\ out' = Append(out, <<Len(flags) + 1, ref>>)
Next == Len(flags) < MaxLen /\ (Reference \/ Measure)
Spec == Init /\ [][Next]_vars
\* declarative: nearest reference in the reverse temporal direction
Latest(n) == CHOOSE r \in 1 .. n : flags[r] /\ \A k \in r + 1 .. n : ~ flags[k]
Nearest == \A k \in 1 .. Len(out) : out[k][2] = Latest(out[k][1]) /\ ~ flags[out[k][1]]
Complete == Len(out) = Len(SelectSeq(flags, LAMBDA f : ~ f))
Ordered == \A k \in 1 .. Len(out) - 1 : out[k][1] < out[k + 1][1]
Report == Len(flags) > 0 => Emit([flags |-> flags, out |-> out])
=============================================================================
