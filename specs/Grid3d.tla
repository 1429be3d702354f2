------------------------------- MODULE Grid3d -------------------------------
(* utils.grid3d / ctrans.grid3d: scattered points (x, y, z, intensity) are    *)
(* accumulated on a regular grid by a team of threads.  Each thread takes     *)
(* points in any order into a grid of its own; the grids are then gathered.   *)
(* ctrans.grid3d also goes on from the sums of an earlier call: the points    *)
(* then come in several sittings (cuts: number of points after each).         *)
(* Coordinates are integers in a unit the harness chooses.  An axis is        *)
(* [lo, w, n]: n voxels of width w from lo; a voxel is closed below and open  *)
(* above.  A point is [p |-> <<x,y,z>>, i |-> intensity, ok |-> counted?]:    *)
(* ok is false for masked pixels and for pixels whose intensity is not a      *)
(* number.                                                                    *)
EXTENDS Out, FiniteSets, FiniteSetsExt
CONSTANTS Cases, NThreads
VARIABLES c, sit, todo, grid, gathered, result
vars == <<c, sit, todo, grid, gathered, result>>

Threads == 1 .. NThreads
Case == Cases[c]
Axis(k) == Case.axes[k]
Inside(p) == \A k \in 1 .. 3 : p[k] >= Axis(k).lo /\ p[k] < Axis(k).lo + (Axis(k).n * Axis(k).w)
Voxel(p) == [k \in 1 .. 3 |-> (p[k] - Axis(k).lo) \div Axis(k).w]
Empty == << >>                        \* a grid: partial function voxel -> sums
Zero == [n |-> 0, s |-> 0, s2 |-> 0]
Get(g, v) == IF v \in DOMAIN g THEN g[v] ELSE Zero
Plus(a, b) == [n |-> a.n + b.n, s |-> a.s + b.s, s2 |-> a.s2 + b.s2]
Put(g, v, x) == [u \in DOMAIN g \cup {v} |-> IF u = v THEN Plus(Get(g, v), x) ELSE g[u]]
Merge(g, h) == [u \in DOMAIN g \cup DOMAIN h |-> Plus(Get(g, u), Get(h, u))]
Counted(pt) == pt.ok /\ Inside(pt.p)

Init == /\ c \in 1 .. Len(Cases)
        /\ sit = 1
        /\ todo = 1 .. Cases[c].cuts[1]
        /\ grid = [t \in Threads |-> Empty]
        /\ gathered = {}
        /\ result = Empty

\* with one thread the order is fixed; with several, any thread takes any point
Pick == IF NThreads = 1 THEN {CHOOSE j \in todo : \A k \in todo : j <= k} ELSE todo

Take(t) ==
    /\ todo # {}
    /\ \E j \in Pick :
         LET pt == Case.pts[j] IN
         /\ todo' = todo \ {j}
         /\ grid' = IF Counted(pt)
                    THEN [grid EXCEPT ![t] = Put(@, Voxel(pt.p), [n |-> 1, s |-> pt.i, s2 |-> pt.i * pt.i])]
                    ELSE grid
    /\ UNCHANGED <<c, sit, gathered, result>>

Gather(t) ==
    /\ todo = {} /\ t \notin gathered
    /\ gathered' = gathered \cup {t}
    /\ result' = Merge(result, grid[t])
    /\ UNCHANGED <<c, sit, todo, grid>>

\* the sums of the sitting before are handed in
Again ==
    /\ gathered = Threads /\ sit < Len(Case.cuts)
    /\ sit' = sit + 1
    /\ todo' = (Case.cuts[sit] + 1) .. Case.cuts[sit + 1]
    /\ grid' = [t \in Threads |-> Empty]
    /\ gathered' = {}
    /\ UNCHANGED <<c, result>>

Next == (\E t \in Threads : Take(t) \/ Gather(t)) \/ Again
Spec == Init /\ [][Next]_vars

Done == gathered = Threads
(* --- the properties ------------------------------------------------------ *)
SumOver(S, F(_)) == MapThenSumSet(F, S)
Members(v) == {j \in 1 .. Case.cuts[sit] : Counted(Case.pts[j]) /\ Voxel(Case.pts[j].p) = v}
\* every counted point is in exactly one voxel, whatever the schedule was
Exact == Done =>
    /\ \A v \in DOMAIN result :
         /\ result[v].n = Cardinality(Members(v))
         /\ result[v].s = SumOver(Members(v), LAMBDA j : Case.pts[j].i)
         /\ result[v].s2 = SumOver(Members(v), LAMBDA j : Case.pts[j].i * Case.pts[j].i)
    /\ SumOver(DOMAIN result, LAMBDA v : result[v].n)
         = Cardinality({j \in 1 .. Case.cuts[sit] : Counted(Case.pts[j])})
InGrid == \A v \in DOMAIN result : \A k \in 1 .. 3 : v[k] >= 0 /\ v[k] < Axis(k).n
Report == (Done /\ NThreads = 1) =>
    Emit([case |-> c, sit |-> sit, vox |-> {<<v[1], v[2], v[3], result[v].n, result[v].s, result[v].s2>> : v \in DOMAIN result}])
=============================================================================
