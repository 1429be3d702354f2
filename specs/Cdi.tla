-------------------------------- MODULE Cdi ---------------------------------
(* skbeam.core.cdi.cdi_recon: the difference map of coherent diffraction     *)
(* imaging as a schedule of steps.  Fractions of the run are in eighths.     *)
(* An iteration applies the map with the support in force; afterwards the    *)
(* support may be refined, the callback called and the iterate averaged.     *)
(* The numbers are not in the model: the harness carries out each step that  *)
(* the model prescribes, on arrays, and compares with what the code returns. *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Cases
VARIABLES c, n, epoch, refined, called, summed, log
vars == <<c, n, epoch, refined, called, summed, log>>
A == Cases[c]

Init == /\ c \in 1 .. Len(Cases)
        /\ n = 0 /\ epoch = 0 /\ refined = {} /\ called = {} /\ summed = {} /\ log = <<>>

Window(k) == /\ A.sw
             /\ (8 * k) >= (A.from * A.total)
             /\ (8 * k) <= (A.to * A.total)
             /\ (k % A.step) = 0
Averaged(k) == (8 * k) > (A.avg * A.total)
Due(k) == A.cb > 0 /\ ((k + 1) % A.cb) = 0

Iterate ==
  /\ n < A.total
  /\ LET r == Window(n)
         e2 == IF r THEN epoch + 1 ELSE epoch
     IN /\ log' = Append(log, [sup |-> epoch, refine |-> r, call |-> Due(n), avg |-> Averaged(n)])
        /\ epoch' = e2
        /\ refined' = (IF r THEN refined \cup {n} ELSE refined)
        /\ called' = (IF Due(n) THEN called \cup {n} ELSE called)
        /\ summed' = (IF Averaged(n) THEN summed \cup {n} ELSE summed)
  /\ n' = n + 1
  /\ UNCHANGED c
Next == Iterate
Spec == Init /\ [][Next]_vars

Done == n = A.total
\* the support in force is the one found last before
Support == \A k \in 1 .. n : log[k].sup = Cardinality({m \in refined : m < k - 1})
Calls == A.cb > 0 => Cardinality(called) = n \div A.cb
Silent == A.cb = 0 => called = {}
\* what is averaged is the end of the run, without a gap
LastOnes == \A k \in summed : \A m \in k .. (n - 1) : m \in summed
Frozen == ~A.sw => epoch = 0
Report == Done => Emit([case |-> c, log |-> log])

=============================================================================
