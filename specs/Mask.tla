------------------------------- MODULE Mask -------------------------------
(* mask.threshold and mask.bad_to_nan_gen: frames arrive one after another   *)
(* and are passed on at once.  A pixel that reached the threshold in any     *)
(* frame so far is out of the mask, and stays out; a frame listed as bad is  *)
(* replaced, the others pass unchanged.                                      *)
EXTENDS Out
CONSTANTS NPix, NFrames, Vals, Thr, MaskVals
VARIABLES start, frames, mask, hist, bad
vars == <<start, frames, mask, hist, bad>>
Px == 1 .. NPix
Init == /\ start \in [Px -> MaskVals]
        /\ mask = start /\ frames = << >> /\ hist = << >>
        /\ bad \in SUBSET (0 .. NFrames)
Arrive == /\ Len(frames) < NFrames
          /\ \E f \in [Px -> Vals] :
               /\ frames' = Append(frames, f)
               /\ mask' = [p \in Px |-> IF f[p] >= Thr THEN 0 ELSE mask[p]]
          /\ hist' = Append(hist, mask')
          /\ UNCHANGED <<start, bad>>
Next == Arrive
Spec == Init /\ [][Next]_vars
\* the mask never grows back, and holds exactly what was never hot
Monotone == \A i \in 2 .. Len(hist) : \A p \in Px : hist[i][p] <= hist[i-1][p]
Exact == \A p \in Px : mask[p] = (IF \E i \in 1 .. Len(frames) : frames[i][p] >= Thr THEN 0 ELSE start[p])
Report == Len(frames) = NFrames =>
    Emit([start |-> start, frames |-> frames, hist |-> hist, bad |-> bad])
===========================================================================
