------------------------------- MODULE RoiLines -------------------------------
(* roi.lines: straight lines of pixels between two end points, each moved     *)
(* into the image.  For every step along the longer side exactly one pixel,   *)
(* at most half a pixel away from the ideal line.                             *)
EXTENDS Out
CONSTANTS Cases
VARIABLES c, t, path
vars == <<c, t, path>>
Abs(n) == IF n < 0 THEN -n ELSE n
Clip(v, n) == IF v < 0 THEN 0 ELSE IF v > n - 1 THEN n - 1 ELSE v
Case == Cases[c]
P(i) == LET l == Case.line IN
        IF i = 1 THEN <<Clip(l[1], Case.nr), Clip(l[2], Case.nc)>> ELSE <<Clip(l[3], Case.nr), Clip(l[4], Case.nc)>>
Dr == P(2)[1] - P(1)[1]
Dc == P(2)[2] - P(1)[2]
N == IF Abs(Dr) > Abs(Dc) THEN Abs(Dr) ELSE Abs(Dc)
\* pixels next to the ideal point after i of N steps, on the longer side exact
Near(i) == IF N = 0 THEN {P(1)} ELSE
    LET rows == IF Abs(Dr) = N THEN {P(1)[1] + ((Dr * i) \div N)}
                ELSE {r \in 0 .. Case.nr - 1 : Abs((2 * N * (r - P(1)[1])) - (2 * Dr * i)) <= N}
        cols == IF Abs(Dc) = N THEN {P(1)[2] + ((Dc * i) \div N)}
                ELSE {x \in 0 .. Case.nc - 1 : Abs((2 * N * (x - P(1)[2])) - (2 * Dc * i)) <= N}
    IN rows \X cols
Init == c \in 1 .. Len(Cases) /\ t = 0 /\ path = << >>
Step == t <= N /\ path' = Append(path, Near(t)) /\ t' = t + 1 /\ UNCHANGED c
Next == Step
Spec == Init /\ [][Next]_vars
Nonempty == \A i \in 1 .. Len(path) : path[i] # {}
Ends == t = N + 1 => P(1) \in path[1] /\ P(2) \in path[Len(path)]
Report == t = N + 1 => Emit([case |-> c, path |-> path])
===============================================================================
