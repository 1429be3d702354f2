----------------------------- MODULE MultiTau -----------------------------
(* One-time multi-tau correlation (skbeam.core.correlation.lazy_one_time).  *)
(* The state is the generator's internal state, with frames kept symbolic:  *)
(* a buffer slot holds the interval <<first,last>> of frames it averages,   *)
(* and an accumulator holds the sequence of <<past,future>> pairs that went *)
(* into its running mean.  One action per step of the code: a frame enters  *)
(* level 0, the cascade visits one level at a time, a result is yielded,    *)
(* the consumer drops the generator and resumes from the internal state.    *)
EXTENDS Out, FiniteSets

CONSTANTS NL,        \* number of levels
          NB,        \* number of buffers per level (even)
          NF,        \* frames fed at most
          MaxBad,    \* bad frames at most
          MaxSplit,  \* interruptions at most
          BadAt,     \* the bad frames, or {0}: any
          SplitAt,   \* the interruptions, or {0}: any
          EmitFrom   \* results are handed out from this frame on

VARIABLES good,      \* history: good[t] says whether frame t is usable
          splits,    \* frame counts after which processing was resumed
          buf, cur, track, imgs,
          pairs,     \* pairs[l][i]: pairs averaged at level l, delay i
          nbad,      \* pairs left out, as counted by the code
          pc
vars == <<good, splits, buf, cur, track, imgs, pairs, nbad, pc>>

Levels == 0 .. NL-1
Slots == 0 .. NB-1
IMin(l) == IF l = 0 THEN 0 ELSE NB \div 2
Pow2(l) == 2^l
None == <<0, 0>>

Init == /\ good = <<>> /\ splits = {}
        /\ buf = [l \in Levels |-> [s \in Slots |-> None]]
        /\ cur = [l \in Levels |-> 1]
        /\ track = [l \in Levels |-> FALSE]
        /\ imgs = [l \in Levels |-> 0]
        /\ pairs = [l \in Levels |-> [i \in Slots |-> <<>>]]
        /\ nbad = [l \in Levels |-> [i \in Slots |-> 0]]
        /\ pc = "idle"

BlockGood(g, b) == \A t \in b[1] .. b[2] : g[t]

\* The inner loop: correlate slot bno of level l with the i-th previous one.
Process(l, bno, nb, g) ==
  LET n == imgs[l] + 1
      hi == IF n < NB THEN n ELSE NB
      Past(i) == nb[l][(bno - i) % NB]
      Fut == nb[l][bno]
      ok(i) == BlockGood(g, Past(i)) /\ BlockGood(g, Fut)
      used(i) == i >= IMin(l) /\ i < hi
  IN /\ imgs' = [imgs EXCEPT ![l] = n]
     /\ pairs' = [pairs EXCEPT ![l] = [i \in Slots |->
            IF used(i) /\ ok(i) THEN Append(@[i], <<Past(i), Fut>>) ELSE @[i]]]
     /\ nbad' = [nbad EXCEPT ![l] = [i \in Slots |->
            IF used(i) /\ ~ok(i) THEN @[i] + 1 ELSE @[i]]]

Feed(ok) ==
  /\ pc = "idle" /\ Len(good) < NF
  /\ IF BadAt = {0} THEN ~ok => Cardinality({t \in DOMAIN good : ~good[t]}) < MaxBad
                    ELSE ok = (Len(good) + 1 \notin BadAt)
  /\ SplitAt # {0} => (Len(good) \in SplitAt => Len(good) \in splits)
  /\ LET c == (1 + cur[0]) % NB
         slot == (c - 1) % NB
         t == Len(good) + 1
         nb == [buf EXCEPT ![0][slot] = <<t, t>>]
         g == Append(good, ok)
     IN /\ cur' = [cur EXCEPT ![0] = c]
        /\ buf' = nb /\ good' = g
        /\ Process(0, slot, nb, g)
  /\ pc' = IF NL > 1 THEN "level1" ELSE "yield"
  /\ UNCHANGED <<splits, track>>

PcName(l) == "level" \o ToString(l)

Cascade(l) ==
  /\ pc = PcName(l)
  /\ IF ~track[l]
     THEN /\ track' = [track EXCEPT ![l] = TRUE]
          /\ pc' = "yield"
          /\ UNCHANGED <<good, splits, buf, cur, imgs, pairs, nbad>>
     ELSE LET prev == 1 + ((cur[l-1] - 2) % NB)
              c == 1 + (cur[l] % NB)
              a == buf[l-1][(prev - 1) % NB]
              b == buf[l-1][(cur[l-1] - 1) % NB]
              nb == [buf EXCEPT ![l][c - 1] = <<a[1], b[2]>>]
          IN /\ cur' = [cur EXCEPT ![l] = c]
             /\ buf' = nb
             /\ track' = [track EXCEPT ![l] = FALSE]
             /\ Process(l, c - 1, nb, good)
             /\ pc' = IF l + 1 < NL THEN PcName(l + 1) ELSE "yield"
             /\ UNCHANGED <<good, splits>>

\* rows of the result, in the order the code reports them
RowKeys == [r \in 1 .. ((NL + 1) * NB) \div 2 |->
              IF r <= NB THEN <<0, r - 1>>
              ELSE <<(r - NB - 1) \div (NB \div 2) + 1, (NB \div 2) + ((r - NB - 1) % (NB \div 2))>>]
Result == [r \in DOMAIN RowKeys |->
             [lag |-> RowKeys[r][2] * Pow2(RowKeys[r][1]),
              pairs |-> pairs[RowKeys[r][1]][RowKeys[r][2]]]]

Yield ==
  /\ pc = "yield"
  /\ (Len(good) >= EmitFrom) => Emit([good |-> good, splits |-> splits, rows |-> Result])
  /\ pc' = "idle"
  /\ UNCHANGED <<good, splits, buf, cur, track, imgs, pairs, nbad>>

\* The consumer lets the generator go and starts another one on its state.
Resume ==
  /\ pc = "idle" /\ Len(good) \in 1 .. NF-1
  /\ Len(good) \notin splits
  /\ IF SplitAt = {0} THEN Cardinality(splits) < MaxSplit ELSE Len(good) \in SplitAt
  /\ splits' = splits \cup {Len(good)}
  /\ UNCHANGED <<good, buf, cur, track, imgs, pairs, nbad, pc>>

Next == (\E ok \in BOOLEAN : Feed(ok)) \/ (\E l \in 1 .. NL-1 : Cascade(l)) \/ Yield \/ Resume
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What the user is promised, stated over the history alone.                *)
Block(l, k) == <<(k - 1) * Pow2(l) + 1, k * Pow2(l)>>
Complete(l) == Len(good) \div Pow2(l)

\* every pair of complete blocks a delay i apart, both good, in order
RECURSIVE AllPairs(_, _, _)
AllPairs(l, i, k) ==
  IF k > Complete(l) - i THEN <<>>
  ELSE (IF BlockGood(good, Block(l, k)) /\ BlockGood(good, Block(l, k + i))
        THEN <<<<Block(l, k), Block(l, k + i)>>>> ELSE <<>>) \o AllPairs(l, i, k + 1)

Settled == pc \in {"idle", "yield"}
Exact == Settled => \A l \in Levels : \A i \in Slots :
            pairs[l][i] = IF i < IMin(l) THEN <<>> ELSE AllPairs(l, i, 1)
Counted == Settled => \A l \in Levels : \A i \in IMin(l) .. NB-1 :
            /\ imgs[l] = Complete(l)
            /\ imgs[l] >= i => Len(pairs[l][i]) + nbad[l][i] = imgs[l] - i
\* the running mean divides by the number of pairs that went in
Normalised == Settled => \A l \in Levels : \A i \in IMin(l) .. NB-1 :
            Len(pairs[l][i]) > 0 => imgs[l] - i - nbad[l][i] = Len(pairs[l][i])
\* lags strictly increase from row to row, and each pair is that far apart
Lags == /\ \A r \in 2 .. Len(Result) : Result[r].lag > Result[r-1].lag
        /\ \A r \in DOMAIN Result : \A p \in DOMAIN Result[r].pairs :
              LET q == Result[r].pairs[p] IN q[2][1] - q[1][1] = Result[r].lag
\* one interruption more or less does not show: the state is a function of
\* the frames alone
TrackInv == Settled => \A l \in 1 .. NL-1 : track[l] = (Complete(l-1) % 2 = 1)
===========================================================================
