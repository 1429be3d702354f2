-------------------------------- MODULE Xsvs --------------------------------
(* X-ray speckle visibility: photon statistics at integration times         *)
(* 1, 2, 4, ... frames (speckle.xsvs with timebin_num = 2).  Frames are     *)
(* symbolic: a buffer slot holds the interval of frames it sums; samples    *)
(* holds, per image set and level, the intervals whose histograms went into *)
(* the running mean.                                                        *)
EXTENDS Out, FiniteSets

CONSTANTS NT,       \* number of integration times (levels)
          NSets, NF, MaxBad,
          BadAt,    \* the bad frames of every set, or {0}: any
          MinLen    \* an image set has at least this many frames

VARIABLES set,      \* current image set
          good,     \* good[s]: history of set s
          buf, cur, track, seen, nbad, samples, pc
vars == <<set, good, buf, cur, track, seen, nbad, samples, pc>>

Levels == 0 .. NT-1
NB == 2
None == <<0, 0>>

FreshBuf == [l \in Levels |-> [s \in 0 .. NB-1 |-> None]]
Zero == [l \in Levels |-> 0]
No == [l \in Levels |-> FALSE]

Init == /\ set = 1 /\ good = [s \in 1 .. NSets |-> <<>>]
        /\ buf = FreshBuf /\ cur = [l \in Levels |-> NB] /\ track = No
        /\ seen = Zero /\ nbad = Zero
        /\ samples = [s \in 1 .. NSets |-> [l \in Levels |-> <<>>]]
        /\ pc = "idle"

BlockGood(g, b) == \A t \in b[1] .. b[2] : g[t]

Process(l, b, g) ==
  /\ seen' = [seen EXCEPT ![l] = @ + 1]
  /\ IF BlockGood(g, b)
     THEN samples' = [samples EXCEPT ![set][l] = Append(@, b)] /\ nbad' = nbad
     ELSE nbad' = [nbad EXCEPT ![l] = @ + 1] /\ samples' = samples

BadSoFar == Cardinality({<<s, t>> \in (1 .. NSets) \X (1 .. NF) : t \in DOMAIN good[s] /\ ~good[s][t]})
PcName(l) == "level" \o ToString(l)

Feed(ok) ==
  /\ pc = "idle" /\ set <= NSets /\ Len(good[set]) < NF
  /\ IF BadAt = {0} THEN ~ok => BadSoFar < MaxBad ELSE ok = (Len(good[set]) + 1 \notin BadAt)
  /\ LET c == (1 + cur[0]) % NB
         t == Len(good[set]) + 1
         g == Append(good[set], ok)
     IN /\ cur' = [cur EXCEPT ![0] = c]
        /\ buf' = [buf EXCEPT ![0][(c - 1) % NB] = <<t, t>>]
        /\ good' = [good EXCEPT ![set] = g]
        /\ Process(0, <<t, t>>, g)
  /\ pc' = IF NT > 1 THEN "level1" ELSE "idle"
  /\ UNCHANGED <<set, track>>

Cascade(l) ==
  /\ pc = PcName(l)
  /\ IF ~track[l]
     THEN /\ track' = [track EXCEPT ![l] = TRUE] /\ pc' = "idle"
          /\ UNCHANGED <<set, good, buf, cur, seen, nbad, samples>>
     ELSE LET prev == 1 + ((cur[l-1] - 2) % NB)
              c == 1 + (cur[l] % NB)
              a == buf[l-1][(prev - 1) % NB]
              b == buf[l-1][(cur[l-1] - 1) % NB]
              ab == <<a[1], b[2]>>
          IN /\ cur' = [cur EXCEPT ![l] = c]
             /\ buf' = [buf EXCEPT ![l][c - 1] = ab]
             /\ track' = [track EXCEPT ![l] = FALSE]
             /\ Process(l, ab, good[set])
             /\ pc' = IF l + 1 < NT THEN PcName(l + 1) ELSE "idle"
             /\ UNCHANGED <<set, good>>

\* the image set ends (at any length from MinLen on): fresh buffers for the next one
EndSet ==
  /\ pc = "idle" /\ set <= NSets /\ Len(good[set]) >= MinLen
  /\ set' = set + 1
  /\ buf' = FreshBuf /\ cur' = [l \in Levels |-> NB] /\ track' = No /\ seen' = Zero /\ nbad' = Zero
  /\ set = NSets => Emit([good |-> good, samples |-> [s \in 1 .. NSets |-> [l \in 1 .. NT |-> samples[s][l-1]]]])
  /\ UNCHANGED <<good, samples, pc>>

Next == (\E ok \in BOOLEAN : Feed(ok)) \/ (\E l \in 1 .. NT-1 : Cascade(l)) \/ EndSet
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
RECURSIVE Blocks(_, _, _)
Blocks(g, l, k) ==
  IF k * 2^l > Len(g) THEN <<>>
  ELSE (IF BlockGood(g, <<(k-1) * 2^l + 1, k * 2^l>>) THEN <<<<(k-1) * 2^l + 1, k * 2^l>>>> ELSE <<>>) \o Blocks(g, l, k + 1)
\* an integration time T = 2^l sees every block of T consecutive frames once
Exact == pc = "idle" => \A s \in 1 .. NSets : \A l \in Levels : samples[s][l] = Blocks(good[s], l, 1)
Counted == (pc = "idle" /\ set <= NSets) => \A l \in Levels : seen[l] = Len(good[set]) \div 2^l /\ seen[l] - nbad[l] = Len(samples[set][l])
===========================================================================
