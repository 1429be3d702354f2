-------------------------------- MODULE Dpc ---------------------------------
(* skbeam.core.dpc: a raster scan of R x C diffraction patterns is processed  *)
(* pattern by pattern (lazy_dpc).  The process may be abandoned after any     *)
(* pattern and taken up again with the state reached, and a phase image may   *)
(* be reconstructed from whatever is there at any moment.                     *)
(*   grid     at each scan position: the pattern booked there, 0 for none     *)
(*   live     a generator is running                                          *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Rows, Cols, MaxStops, MaxPeeks
VARIABLES next, grid, live, stops, peeks, log
vars == <<next, grid, live, stops, peeks, log>>
Total == Rows * Cols
Pos(k) == <<(k - 1) \div Cols, (k - 1) % Cols>>
Cells == (0 .. (Rows - 1)) \X (0 .. (Cols - 1))
Init == /\ next = 1 /\ grid = [p \in Cells |-> 0] /\ live = FALSE
        /\ stops = 0 /\ peeks = 0 /\ log = <<>>
Start == /\ ~live /\ next <= Total /\ live' = TRUE
         /\ log' = Append(log, "start")
         /\ UNCHANGED <<next, grid, stops, peeks>>
Feed == /\ live /\ next <= Total
        /\ grid' = [grid EXCEPT ![Pos(next)] = next]
        /\ next' = next + 1
        /\ log' = Append(log, "feed")
        /\ UNCHANGED <<live, stops, peeks>>
\* give the generator up; its state can be kept
Stop == /\ live /\ next > 1 /\ next <= Total /\ stops < MaxStops
        /\ Last(log) # "start"
        /\ live' = FALSE /\ stops' = stops + 1
        /\ log' = Append(log, "stop")
        /\ UNCHANGED <<next, grid, peeks>>
\* an image of what is there; changes nothing
Peek == /\ next > 1 /\ peeks < MaxPeeks /\ Last(log) # "peek"
        /\ peeks' = peeks + 1
        /\ log' = Append(log, "peek")
        /\ UNCHANGED <<next, grid, live, stops>>
Next == Start \/ Feed \/ Stop \/ Peek
Spec == Init /\ [][Next]_vars
\* every pattern once, in the order of the scan, nowhere else
Raster == \A p \in Cells : grid[p] = (LET k == (p[1] * Cols) + p[2] + 1 IN IF k < next THEN k ELSE 0)
Report == (next > Total /\ live) => Emit([rows |-> Rows, cols |-> Cols, log |-> log])
=============================================================================
