------------------------------- MODULE RingEdges -------------------------------
(* roi.ring_edges: inner and outer radii of rings from widths and spacings,    *)
(* each one number for all or one per ring / gap.  Zero-length list = scalar.  *)
EXTENDS Out
CONSTANTS Inners, Widths, Spacings, Nums
\* Widths, Spacings: sets of [list |-> BOOLEAN, v |-> sequence]; Nums: 0 = not given
VARIABLES inner, w, s, num, edges, status
vars == <<inner, w, s, num, edges, status>>
Init == /\ inner \in Inners /\ w \in Widths /\ s \in Spacings /\ num \in Nums
        /\ edges = << >> /\ status = "start"
N == IF num # 0 THEN num ELSE IF w.list THEN Len(w.v) ELSE Len(s.v) + 1
Consistent == /\ (num = 0 => (w.list \/ s.list))
              /\ (w.list => Len(w.v) = N)
              /\ (s.list => Len(s.v) = N - 1)
Check == status = "start" /\ status' = (IF Consistent THEN "build" ELSE "refused") /\ UNCHANGED <<inner, w, s, num, edges>>
WidthOf(i) == IF w.list THEN w.v[i] ELSE w.v[1]
GapOf(i) == IF s.list THEN s.v[i] ELSE s.v[1]
Add == /\ status = "build" /\ Len(edges) < N
       /\ LET i == Len(edges) + 1
              lo == IF i = 1 THEN inner ELSE edges[i - 1][2] + GapOf(i - 1)
          IN edges' = Append(edges, <<lo, lo + WidthOf(i)>>)
       /\ UNCHANGED <<inner, w, s, num, status>>
Stop == status = "build" /\ Len(edges) = N /\ status' = "done" /\ UNCHANGED <<inner, w, s, num, edges>>
Next == Check \/ Add \/ Stop
Spec == Init /\ [][Next]_vars
\* rings in order from the centre outwards, each as wide as asked for
Ordered == \A i \in 1 .. Len(edges) :
    /\ edges[i][2] - edges[i][1] = WidthOf(i)
    /\ i > 1 => edges[i][1] >= edges[i - 1][2]
Report == status \in {"done", "refused"} =>
    Emit([inner |-> inner, w |-> w, s |-> s, num |-> num, status |-> status, edges |-> edges])
================================================================================
