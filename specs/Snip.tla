-------------------------------- MODULE Snip --------------------------------
(* skbeam.core.fitting.background.snip_method: peaks are clipped off a        *)
(* spectrum.  On the double logarithmic scale every channel is lowered to     *)
(* the mean of the two channels one window away, if that is less: a number    *)
(* of times with the full window, then again while the window shrinks, as     *)
(* long as the largest window is not below the threshold.                     *)
(* The window of a channel is width * fwhm / e_lin,                           *)
(*   fwhm^2 = e_off^2 + e * energy * e_lin  (no less than nil),               *)
(* energy = e_off + ch e_lin + ch^2 e_quad, ch = channel * binning; half of   *)
(* it if the spectrum is binned.  Here e_off = o/8, e_lin = l/8,              *)
(* e_quad = q/64, width = wn/4, e = en/4, threshold = tn/4; the square of     *)
(* the factor by which the window shrinks is d.                               *)
(* v holds the values times 2^p after p passes; -1 marks a channel that is    *)
(* not a number on this scale: it stays, and it clips nothing.                *)
EXTENDS Out, FiniteSets, FiniteSetsExt
CONSTANTS Cases
VARIABLES c, v, p, j
vars == <<c, v, p, j>>
A == Cases[c]
N == Len(A.v)
Ch == 1 .. N
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* square of the window: Num / Den
Bin == IF A.bin = 0 THEN 1 ELSE A.bin
Num(i) == LET x == (i - 1) * Bin
          IN (A.wn * A.wn) * Max2(0, (32 * (A.o * A.o)) + ((A.en * A.l) * (((8 * A.o) + ((8 * x) * A.l)) + ((x * x) * A.q))))
Den == (512 * (A.l * A.l)) * (IF A.bin = 0 THEN 1 ELSE 4)
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Root(_, _, _)
Root(num, den, r) == IF (r + 1) * (r + 1) > num \div den THEN r ELSE Root(num, den, r + 1)
\* whole channels within the window, and whether there is a part left over
Reach(i, s) == Root(Num(i), Den * s, 0)
First == Max2(A.xmin, 0)
Last1 == Min2(A.xmax, N - 1)
Clip(x) == Min2(Max2(x, First), Last1)
\* positions below and above, counted from 0, cut to whole channels
Below(i, s) == Clip(IF Num(i) = 0 THEN i - 1 ELSE (i - 2) - Reach(i, s))
Above(i, s) == Clip((i - 1) + Reach(i, s))
Mean2(i, s) == LET a == v[Below(i, s) + 1] b == v[Above(i, s) + 1] IN IF a < 0 \/ b < 0 THEN -1 ELSE a + b
Lower(s) == [i \in Ch |-> IF v[i] < 0 THEN -1 ELSE IF Mean2(i, s) < 0 THEN 2 * v[i] ELSE Min2(2 * v[i], Mean2(i, s))]
Widest == Max({Num(i) : i \in Ch})
Wide(s) == 16 * Widest >= (A.tn * A.tn) * (Den * s)
Init == c \in 1 .. Len(Cases) /\ v = Cases[c].v /\ p = 0 /\ j = 0
Full == p < A.iter /\ v' = Lower(1) /\ p' = p + 1 /\ UNCHANGED <<c, j>>
Shrink == /\ p >= A.iter /\ Wide(Pow(A.d, j))
          /\ v' = Lower(Pow(A.d, j)) /\ p' = p + 1 /\ j' = j + 1
          /\ UNCHANGED c
Next == Full \/ Shrink
Spec == Init /\ [][Next]_vars
Done == p >= A.iter /\ ~Wide(Pow(A.d, j))
Scale == Pow(2, p)
\* the background lies between the least channel and the spectrum
Under == \A i \in Ch : (A.v[i] >= 0) => v[i] <= A.v[i] * Scale
Floor == \A i \in Ch : (A.v[i] >= 0) => v[i] >= Scale * Min({A.v[k] : k \in {m \in Ch : A.v[m] >= 0}})
Bad == \A i \in Ch : (A.v[i] < 0) <=> (v[i] < 0)
\* clipping twice with the same window never puts anything back
Falls == [][\A i \in Ch : v[i] >= 0 => v'[i] <= 2 * v[i]]_vars
Ends == j > 0 => p = A.iter + j
Report == Done => Emit([case |-> c, v |-> v, p |-> p, j |-> j])
=============================================================================
