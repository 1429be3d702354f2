-------------------------------- MODULE Hist --------------------------------
(* The accumulating histogram (accumulators.histogram.Histogram): a history  *)
(* of fill and reset calls.  A dimension is [n, low, w]: n bins of width w   *)
(* starting at low, in integer units.  A point is a tuple of coordinates.    *)
EXTENDS Out, FiniteSets

CONSTANTS Cases,      \* sequence of [dims, ops]
          NaN         \* the coordinate that is in no bin

VARIABLES case, op, pt, vals, log
vars == <<case, op, pt, vals, log>>

Dims == Cases[case].dims
Ops == Cases[case].ops
High(d) == d.low + d.n * d.w
InDim(d, x) == x # NaN /\ d.low <= x /\ x < High(d)
Inside(p) == \A k \in DOMAIN Dims : InDim(Dims[k], p[k])
Bin(p) == [k \in DOMAIN Dims |-> (p[k] - Dims[k].low) \div Dims[k].w]
Weight(o, i) == IF Len(o.w) = 1 THEN o.w[1] ELSE o.w[i]

Init == /\ case \in DOMAIN Cases /\ op = 1 /\ pt = 1
        /\ vals = <<>>      \* empty function: bins never touched hold zero
        /\ log = <<>>       \* <<point, weight>> since the last reset

Val(v, b) == IF b \in DOMAIN v THEN v[b] ELSE 0
Add(v, b, w) == [x \in DOMAIN v \cup {b} |-> Val(v, x) + (IF x = b THEN w ELSE 0)]
Cur == Ops[op]

FillPoint ==
  /\ op <= Len(Ops) /\ Cur.op = "fill" /\ pt <= Len(Cur.pts)
  /\ LET p == Cur.pts[pt] w == Weight(Cur, pt) IN
       /\ vals' = IF Inside(p) THEN Add(vals, Bin(p), w) ELSE vals
       /\ log' = Append(log, <<p, w>>)
  /\ pt' = pt + 1
  /\ UNCHANGED <<case, op>>

Snapshot(v) == Emit([case |-> case, op |-> op, vals |-> {<<b, v[b]>> : b \in DOMAIN v}])

EndFill ==
  /\ op <= Len(Ops) /\ Cur.op = "fill" /\ pt > Len(Cur.pts)
  /\ Snapshot(vals)
  /\ op' = op + 1 /\ pt' = 1
  /\ UNCHANGED <<case, vals, log>>

Reset ==
  /\ op <= Len(Ops) /\ Cur.op = "reset"
  /\ vals' = <<>> /\ log' = <<>>
  /\ Snapshot(<<>>)
  /\ op' = op + 1 /\ pt' = 1
  /\ UNCHANGED case

Next == FillPoint \/ EndFill \/ Reset
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
RECURSIVE SumFn(_, _)
SumFn(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumFn(f, S \ {x})
RECURSIVE SumLog(_, _)
SumLog(l, b) == IF l = <<>> THEN 0
                ELSE (IF Inside(l[1][1]) /\ (b = <<>> \/ Bin(l[1][1]) = b) THEN l[1][2] ELSE 0) + SumLog(Tail(l), b)
\* nothing in range is lost, nothing out of range is counted
Conserved == SumFn(vals, DOMAIN vals) = SumLog(log, <<>>)
\* each bin holds the weight of the points between its edges
PerBin == \A b \in DOMAIN vals : vals[b] = SumLog(log, b)
InBounds == \A b \in DOMAIN vals : \A k \in DOMAIN Dims : b[k] \in 0 .. Dims[k].n - 1
===========================================================================
