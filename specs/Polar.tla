------------------------------- MODULE Polar --------------------------------
(* skbeam.core.image: images made from radial and from polar averages, and    *)
(* the centre of a mirror-symmetric image.                                    *)
(* Coordinates are doubled, so that centres may be half pixels; the radius is *)
(* exact because only pixels with a whole distance are told about.  Angles    *)
(* count in 24ths of a turn from the +column direction towards +row.          *)
EXTENDS Out, FiniteSets
CONSTANTS Cases
VARIABLES c
A == Cases[c]
Abs(x) == IF x < 0 THEN -x ELSE x
X(j) == A.px * ((2 * (j - 1)) - A.cx)
Y(i) == A.py * ((2 * (i - 1)) - A.cy)
R2(i, j) == (X(j) * X(j)) + (Y(i) * Y(i))
Root(n) == CHOOSE r \in 0 .. 200 : r * r <= n /\ (r + 1) * (r + 1) > n
Whole(i, j) == Root(R2(i, j)) * Root(R2(i, j)) = R2(i, j)
Pixels == (1 .. A.rows) \X (1 .. A.cols)

\* piecewise linear through (xs[k], ys[k]); xs increasing; a rational
Between(xs, x) == CHOOSE k \in 1 .. Len(xs) - 1 : xs[k] <= x /\ x <= xs[k + 1]
Line(xs, ys, x) ==
    LET k == Between(xs, x) IN
    <<(ys[k] * (xs[k + 1] - x)) + (ys[k + 1] * (x - xs[k])), xs[k + 1] - xs[k]>>
Circ(r) ==
    LET n == Len(A.radii) IN
    IF r < A.radii[1] THEN (IF Len(A.left) = 0 THEN <<A.vals[1], 1>> ELSE <<A.left[1], 1>>)
    ELSE IF r > A.radii[n] THEN (IF Len(A.right) = 0 THEN <<A.vals[n], 1>> ELSE <<A.right[1], 1>>)
    ELSE IF n = 1 THEN <<A.vals[1], 1>>
    ELSE Line(A.radii, A.vals, r)
CircImage == {<<p[1], p[2], Circ(Root(R2(p[1], p[2])))>> : p \in {q \in Pixels : Whole(q[1], q[2])}}

\* --- polar image: the angles go round -------------------------------------
Turn == 24
\* direction of a pixel on one of the axes through the centre
OnAxis(i, j) == X(j) = 0 \/ Y(i) = 0
Dir(i, j) == IF Y(i) = 0 THEN (IF X(j) >= 0 THEN 0 ELSE 12) ELSE IF Y(i) > 0 THEN 6 ELSE 18
NA == Len(A.angles)
\* angle after angles[k], going round
Nxt(k) == IF k = NA THEN 1 ELSE k + 1
Gap(k) == IF k = NA THEN (A.angles[1] + Turn) - A.angles[NA] ELSE A.angles[k + 1] - A.angles[k]
Off(k, a) == (a - A.angles[k]) % Turn
Sector(a) == CHOOSE k \in 1 .. NA : Off(k, a) < Gap(k)
\* the corners with their weights (integers), and the common denominator
Corners(r, a) ==
    LET s == Sector(a)
        m == IF r = A.radii[Len(A.radii)] THEN Len(A.radii) - 1
             ELSE CHOOSE k \in 1 .. Len(A.radii) - 1 : A.radii[k] <= r /\ r < A.radii[k + 1]
        wr == <<A.radii[m + 1] - r, r - A.radii[m]>>
        wa == <<Gap(s) - Off(s, a), Off(s, a)>>
    IN {<<m, s, wr[1] * wa[1]>>, <<m + 1, s, wr[2] * wa[1]>>,
        <<m, Nxt(s), wr[1] * wa[2]>>, <<m + 1, Nxt(s), wr[2] * wa[2]>>}
RECURSIVE SumW(_, _)
SumW(S, val) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN (x[3] * (IF val THEN A.img[x[1]][x[2]] ELSE 1)) + SumW(S \ {x}, val)
\* "nan": outside the radii or masked corner; "skip": a masked corner of no weight
Polar(i, j) ==
    LET r == Root(R2(i, j)) a == Dir(i, j) IN
    IF r < A.radii[1] \/ r > A.radii[Len(A.radii)] THEN <<"nan">>
    ELSE LET K == Corners(r, a) IN
         IF \E x \in K : A.mask[x[1]][x[2]] = 0 /\ x[3] > 0 THEN <<"nan">>
         ELSE IF \E x \in K : A.mask[x[1]][x[2]] = 0 THEN <<"skip">>
         ELSE <<SumW(K, TRUE), SumW(K, FALSE)>>
PolarImage == {<<p[1], p[2], Polar(p[1], p[2])>> : p \in {q \in Pixels : Whole(q[1], q[2]) /\ OnAxis(q[1], q[2])}}

\* --- centre ---------------------------------------------------------------
\* correlation of a row with its mirror image at lag l (0 .. 2N-2), per overlap
RECURSIVE Mirror(_, _, _)
Mirror(v, l, k) ==       \* sum over k of v[k] v[l + 2 - k] with both indices in range
    IF k > Len(v) THEN 0
    ELSE (IF (l + 2) - k >= 1 /\ (l + 2) - k <= Len(v) THEN v[k] * v[(l + 2) - k] ELSE 0) + Mirror(v, l, k + 1)
Overlap(n, l) == n - Abs(l - (n - 1))
Peak(v, p) == LET top == Mirror(v, 2 * p, 1) IN
              \A l \in 0 .. (2 * Len(v)) - 2 : l # 2 * p =>
                 Mirror(v, l, 1) * Overlap(Len(v), 2 * p) < top * Overlap(Len(v), l)
Col(m, j) == [i \in 1 .. Len(m) |-> m[i][j]]
Votes(m, p) == Cardinality({i \in 1 .. Len(m) : Peak(m[i], p)})
\* more than half of the lines agree on the mirror
Clear(m, p) == 2 * Votes(m, p) > Len(m)
Flip(m) == [j \in 1 .. Len(m[1]) |-> Col(m, j)]
CentreKnown == Clear(A.img, A.col) /\ Clear(Flip(A.img), A.row)

Init == c \in 1 .. Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* interpolation stays within the values it interpolates
Bounded == A.op = "circ" => \A p \in CircImage :
    \A S \in {{A.vals[k] : k \in 1 .. Len(A.vals)} \cup (IF Len(A.left) = 0 THEN {} ELSE {A.left[1]}) \cup (IF Len(A.right) = 0 THEN {} ELSE {A.right[1]})} :
        \E lo \in S : \E hi \in S : lo * p[3][2] <= p[3][1] /\ p[3][1] <= hi * p[3][2]
Report == Emit([case |-> c, ans |-> IF A.op = "circ" THEN CircImage
                                    ELSE IF A.op = "polar" THEN PolarImage ELSE {CentreKnown}])
=============================================================================
