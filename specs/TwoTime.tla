------------------------------ MODULE TwoTime ------------------------------
(* Two-time correlation (skbeam.core.correlation.lazy_two_time and           *)
(* two_time_state_to_results).  As MultiTau, but the result is a matrix:     *)
(* cell[<<t1,t2>>] is the pair of frame intervals correlated into it, or     *)
(* None where nothing has been computed.                                     *)
EXTENDS Out, FiniteSets

CONSTANTS NL, NB, NF, MaxSplit,
          EventAt,   \* frames after which the run is interrupted and the state
                     \* converted, or {0}: any
          EmitFrom   \* results are handed out from this frame on

VARIABLES nfr,      \* frames fed so far
          splits,   \* frame counts at which the run was resumed
          convs,    \* frame counts at which the state was converted
          buf, cur, track, imgs, count, tind, cell, pc
vars == <<nfr, splits, convs, buf, cur, track, imgs, count, tind, cell, pc>>

Levels == 0 .. NL-1
Slots == 0 .. NB-1
IMin(l) == IF l = 0 THEN 0 ELSE NB \div 2
Pow2(l) == 2^l
None == <<>>
Cells == (1 .. NF) \X (1 .. NF)

Init == /\ nfr = 0 /\ splits = {} /\ convs = {}
        /\ buf = [l \in Levels |-> [s \in Slots |-> None]]
        /\ cur = [l \in Levels |-> 1]
        /\ track = [l \in Levels |-> FALSE]
        /\ imgs = [l \in Levels |-> 0]
        /\ count = [l \in Levels |-> 0]
        /\ tind = [l \in Levels |-> <<>>]      \* twice the image times
        /\ cell = [c \in Cells |-> None]
        /\ pc = "idle"

\* tt: twice the image time of the newest frame of level l, so that it is
\* an integer; the code shifts by -2^(l-1)+1 .. 2^(l-1) and truncates.
Process(l, bno, nb, tt) ==
  LET n == imgs[l] + 1
      hi == IF n < NB THEN n ELSE NB
      lag(i) == i * Pow2(l)
      shifts == IF l = 0 THEN {0} ELSE (-Pow2(l-1) + 1) .. Pow2(l-1)
      \* floor of (tt/2 - 1 + s) is a 0-based index; cells here are 1-based
      at(i, s) == <<(tt - 2 + 2*s) \div 2 + 1, (tt - 2*lag(i) - 2 + 2*s) \div 2 + 1>>
      writes == {<<at(i, s), <<nb[l][(bno - i) % NB], nb[l][bno]>>>> :
                    i \in IMin(l) .. hi - 1, s \in shifts}
  IN /\ imgs' = [imgs EXCEPT ![l] = n]
     /\ cell' = [c \in {w[1] : w \in writes} |-> (CHOOSE w \in writes : w[1] = c)[2]] @@ cell

PcName(l) == "level" \o ToString(l)

Feed ==
  /\ pc = "idle" /\ nfr < NF
  /\ (EventAt # {0} /\ nfr \in EventAt) => (nfr \in splits /\ nfr \in convs)
  /\ LET c == (1 + cur[0]) % NB
         slot == (c - 1) % NB
         t == nfr + 1
         nb == [buf EXCEPT ![0][slot] = <<t, t>>]
     IN /\ cur' = [cur EXCEPT ![0] = c]
        /\ count' = [count EXCEPT ![0] = @ + 1]
        /\ buf' = nb /\ nfr' = t
        /\ tind' = [tind EXCEPT ![0] = Append(@, 2 * t)]
        /\ Process(0, slot, nb, 2 * t)
  /\ pc' = IF NL > 1 THEN "level1" ELSE "yield"
  /\ UNCHANGED <<splits, convs, track>>

Cascade(l) ==
  /\ pc = PcName(l)
  /\ IF ~track[l]
     THEN /\ track' = [track EXCEPT ![l] = TRUE]
          /\ pc' = "yield"
          /\ UNCHANGED <<nfr, splits, convs, buf, cur, imgs, count, tind, cell>>
     ELSE LET prev == 1 + ((cur[l-1] - 2) % NB)
              c == 1 + (cur[l] % NB)
              a == buf[l-1][(prev - 1) % NB]
              b == buf[l-1][(cur[l-1] - 1) % NB]
              nb == [buf EXCEPT ![l][c - 1] = <<a[1], b[2]>>]
              k == 2 * count[l] + 1
              tt == (tind[l-1][k] + tind[l-1][k + 1]) \div 2
          IN /\ cur' = [cur EXCEPT ![l] = c]
             /\ count' = [count EXCEPT ![l] = @ + 1]
             /\ tind' = [tind EXCEPT ![l] = Append(@, tt)]
             /\ buf' = nb
             /\ track' = [track EXCEPT ![l] = FALSE]
             /\ Process(l, c - 1, nb, tt)
             /\ pc' = IF l + 1 < NL THEN PcName(l + 1) ELSE "yield"
             /\ UNCHANGED <<nfr, splits, convs>>

Lower(c) == [x \in Cells |-> IF x[1] >= x[2] THEN c[x] ELSE c[<<x[2], x[1]>>]]
Computed == {c \in Cells : c[1] >= c[2] /\ cell[c] # None}
Result == {<<c[1], c[2], cell[c]>> : c \in Computed}

Yield ==
  /\ pc = "yield"
  /\ (nfr >= EmitFrom) => Emit([n |-> nfr, splits |-> splits, convs |-> convs, cells |-> Result])
  /\ pc' = "idle"
  /\ UNCHANGED <<nfr, splits, convs, buf, cur, track, imgs, count, tind, cell>>

Resume ==
  /\ pc = "idle" /\ nfr \in 1 .. NF-1
  /\ nfr \notin splits
  /\ IF EventAt = {0} THEN Cardinality(splits) < MaxSplit ELSE nfr \in EventAt
  /\ splits' = splits \cup {nfr}
  /\ UNCHANGED <<nfr, convs, buf, cur, track, imgs, count, tind, cell, pc>>

\* two_time_state_to_results on the live state: it mirrors the matrix in place
Convert ==
  /\ pc = "idle" /\ nfr >= 1 /\ nfr \notin convs
  /\ IF EventAt = {0} THEN Cardinality(convs) < MaxSplit ELSE nfr \in EventAt
  /\ convs' = convs \cup {nfr}
  /\ cell' = Lower(cell)
  /\ UNCHANGED <<nfr, splits, buf, cur, track, imgs, count, tind, pc>>

Next == Feed \/ (\E l \in 1 .. NL-1 : Cascade(l)) \/ Yield \/ Resume \/ Convert
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Block(l, t) == <<((t - 1) \div Pow2(l)) * Pow2(l) + 1, ((t - 1) \div Pow2(l) + 1) * Pow2(l)>>
\* what cell <<t1,t2>>, t1 >= t2, has to hold after nfr frames
Want(t1, t2) ==
  IF t1 > nfr THEN None
  ELSE IF t1 - t2 < NB THEN <<<<t2, t2>>, <<t1, t1>>>>
  ELSE LET ls == {l \in 1 .. NL-1 : /\ (t1 - t2) % Pow2(l) = 0
                                    /\ (t1 - t2) \div Pow2(l) \in (NB \div 2) .. NB-1
                                    /\ Block(l, t1)[2] <= nfr}
       IN IF ls = {} THEN None
          ELSE LET l == CHOOSE x \in ls : TRUE IN <<Block(l, t2), Block(l, t1)>>
Settled == pc \in {"idle", "yield"}
InRange == DOMAIN cell = Cells
Exact == Settled => \A c \in Cells : c[1] >= c[2] => cell[c] = Want(c[1], c[2])
\* each computed cell belongs to exactly one level
Unambiguous == \A d \in 0 .. NF : Cardinality({l \in Levels :
                  d % Pow2(l) = 0 /\ d \div Pow2(l) \in IMin(l) .. NB-1}) <= 1
\* above the diagonal: untouched, or the mirror image
Mirror == Settled => \A c \in Cells : c[1] < c[2] => cell[c] \in {None, cell[<<c[2], c[1]>>]}
===========================================================================
