------------------------------- MODULE Smooth -------------------------------
(* skbeam.core.arithmetic, smoothing, stats.                                  *)
(* Smoothing: the image is continued over its borders (how is defined below), *)
(* then every pixel gets the value (or slope) of the polynomial fitted to its *)
(* window.  Fits of order 0 and 1 are averages and exact here; images that    *)
(* are polynomials of the order are reproduced away from the borders.         *)
EXTENDS Out, FiniteSets, FiniteSetsExt
CONSTANTS Cases
VARIABLES c
A == Cases[c]
Abs(x) == IF x < 0 THEN -x ELSE x
Pow(x, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE IF n = 2 THEN x * x ELSE (x * x) * x
H == A.half
I(i, j) == A.img[i][j]
NR == Len(A.img)
NC == Len(A.img[1])
\* continuation: the difference to the mirrored pixel, away from the edge pixel;
\* lower values before the first row and column, higher after the last
Side(k, n) == IF k < 1 THEN -1 ELSE IF k > n THEN 1 ELSE 0
Edge(k, n) == IF k < 1 THEN 1 ELSE IF k > n THEN n ELSE k
Mirr(k, n) == IF k < 1 THEN 2 - k ELSE IF k > n THEN (2 * n) - k ELSE k
RECURSIVE P(_, _)
P(i, j) ==
    LET si == Side(i, NR) sj == Side(j, NC) IN
    IF si = 0 /\ sj = 0 THEN I(i, j)
    ELSE IF sj = 0 THEN I(Edge(i, NR), j) + (si * Abs(I(Mirr(i, NR), j) - I(Edge(i, NR), j)))
    ELSE IF si = 0 THEN I(i, Edge(j, NC)) + (sj * Abs(I(i, Mirr(j, NC)) - I(i, Edge(j, NC))))
    ELSE IF si = sj THEN I(Edge(i, NR), Edge(j, NC)) + (si * Abs(I(Mirr(i, NR), Mirr(j, NC)) - I(Edge(i, NR), Edge(j, NC))))
    ELSE IF si = -1 THEN P(1, j) - Abs(P(Mirr(i, NR), j) - P(1, j))        \* top right
    ELSE P(i, 1) - Abs(P(i, Mirr(j, NC)) - P(i, 1))                         \* bottom left
Win == (-H .. H) \X (-H .. H)
N2 == Cardinality(Win)
S2 == MapThenSumSet(LAMBDA w : w[1] * w[1], Win)
\* order 0 and 1: value, slope down the rows, slope along the columns
\* (m is the continued image)
Continued == [i \in 1 - H .. NR + H |-> [j \in 1 - H .. NC + H |-> P(i, j)]]
Mean(m, i, j) == <<MapThenSumSet(LAMBDA w : m[i + w[1]][j + w[2]], Win), N2>>
Down(m, i, j) == <<MapThenSumSet(LAMBDA w : w[1] * m[i + w[1]][j + w[2]], Win), S2>>
Along(m, i, j) == <<MapThenSumSet(LAMBDA w : w[2] * m[i + w[1]][j + w[2]], Win), S2>>
Low(m, i, j) == IF A.what = "value" THEN Mean(m, i, j) ELSE IF A.what = "col" THEN Down(m, i, j) ELSE Along(m, i, j)
\* polynomial images: terms <<a, p, q>> mean a i^p j^q
Val(i, j) == MapThenSumSet(LAMBDA t : A.terms[t][1] * (Pow(i, A.terms[t][2]) * Pow(j, A.terms[t][3])), 1 .. Len(A.terms))
DI(i, j) == MapThenSumSet(LAMBDA t : IF A.terms[t][2] = 0 THEN 0 ELSE (A.terms[t][1] * A.terms[t][2]) * (Pow(i, A.terms[t][2] - 1) * Pow(j, A.terms[t][3])), 1 .. Len(A.terms))
DJ(i, j) == MapThenSumSet(LAMBDA t : IF A.terms[t][3] = 0 THEN 0 ELSE (A.terms[t][1] * A.terms[t][3]) * (Pow(i, A.terms[t][2]) * Pow(j, A.terms[t][3] - 1)), 1 .. Len(A.terms))
Exact(i, j) == IF A.what = "value" THEN Val(i, j) ELSE IF A.what = "col" THEN DI(i, j) ELSE DJ(i, j)

\* statistics in equal bins from lo to hi (units), width w: closed at the end
Bin(x) == IF x = A.lo + (A.nx * A.w) THEN A.nx ELSE ((x - A.lo) \div A.w) + 1
In(x, b) == x >= A.lo /\ x <= A.lo + (A.nx * A.w) /\ Bin(x) = b
Members(b) == {k \in 1 .. Len(A.x) : In(A.x[k], b)}
Stat(b) == LET M == Members(b) IN
    <<Cardinality(M), MapThenSumSet(LAMBDA k : A.y[k], M), IF M = {} THEN 0 ELSE Max({A.y[k] : k \in M}), IF M = {} THEN 0 ELSE Min({A.y[k] : k \in M})>>

\* truth tables
Nand(a, b) == ~ (a /\ b)
Nor(a, b) == ~ (a \/ b)
Sub(a, b) == a /\ ~ b
Logic == [nand |-> [k \in 1 .. Len(A.a) |-> Nand(A.a[k] # 0, A.b[k] # 0)], nor |-> [k \in 1 .. Len(A.a) |-> Nor(A.a[k] # 0, A.b[k] # 0)],
          sub |-> [k \in 1 .. Len(A.a) |-> Sub(A.a[k] # 0, A.b[k] # 0)]]

Init == c \in 1 .. Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* taking away and keeping what is in neither are apart
Apart == A.op = "logic" => \A k \in 1 .. Len(A.a) : ~ (Logic.nor[k] /\ Logic.sub[k]) /\ (Logic.nor[k] => Logic.nand[k]) /\ (Logic.sub[k] => Logic.nand[k])
\* every point in range is in one bin
Once == A.op = "stat" => \A k \in 1 .. Len(A.x) : Cardinality({b \in 1 .. A.nx : In(A.x[k], b)}) =
                            (IF A.x[k] >= A.lo /\ A.x[k] <= A.lo + (A.nx * A.w) THEN 1 ELSE 0)
Report == Emit([case |-> c, ans |->
    IF A.op = "low" THEN LET m == TLCEval(Continued) IN [i \in 1 .. NR |-> [j \in 1 .. NC |-> Low(m, i, j)]]
    ELSE IF A.op = "poly" THEN [i \in 1 .. A.nr |-> [j \in 1 .. A.nc |-> <<Val(i, j), Exact(i, j)>>]]
    ELSE IF A.op = "stat" THEN [b \in 1 .. A.nx |-> Stat(b)]
    ELSE Logic])
=============================================================================
