------------------------------- MODULE Recip -------------------------------
(* recip.process_to_q: six-circle angles and detector geometry to momentum    *)
(* transfer, image by image.  Angles are multiples of 45 degrees, numbers are *)
(* elements (a + b sqrt 2) / 2^e of the ring they generate, so the whole      *)
(* conversion is exact.  Lengths of Q are in units of 2 pi / wavelength.      *)
(*                                                                            *)
(* A case: del, theta, chi, phi, mu, gam per image; ncol, nrow pixels; off[k] *)
(* the angle (in 45 degree steps: -1, 0, 1) under which the detector sees     *)
(* column / row k; ubi the inverse orientation matrix; mode 1 theta frame,    *)
(* 2 phi frame, 3 crystal cartesian (= phi), 4 reciprocal lattice.            *)
(* Images are converted by a team of threads: any order, stage by stage.      *)
EXTENDS Out, FiniteSets
CONSTANTS Cases, Ordered
VARIABLES c, stage, q
vars == <<c, stage, q>>

Case == Cases[c]
NImg == Len(Case.ang)
NPix == Case.ncol * Case.nrow
R(a) == <<a, 0, 0>>
Half(a) == <<0, a, 1>>                       \* a * sqrt(2)/2
Pow2(n) == 2 ^ n
Lift(x, e) == <<x[1] * Pow2(e - x[3]), x[2] * Pow2(e - x[3]), e>>
Max2(a, b) == IF a > b THEN a ELSE b
Add(x, y) == LET e == Max2(x[3], y[3]) u == Lift(x, e) v == Lift(y, e) IN <<u[1] + v[1], u[2] + v[2], e>>
Mul(x, y) == <<(x[1] * y[1]) + (2 * x[2] * y[2]), (x[1] * y[2]) + (x[2] * y[1]), x[3] + y[3]>>
Neg(x) == <<-x[1], -x[2], x[3]>>
Scale(k, x) == <<k * x[1], k * x[2], x[3]>>
Sub(x, y) == Add(x, Neg(y))
RECURSIVE Norm(_)
Norm(x) == IF x[3] > 0 /\ (x[1] % 2) = 0 /\ (x[2] % 2) = 0
           THEN Norm(<<x[1] \div 2, x[2] \div 2, x[3] - 1>>) ELSE x
Eq(x, y) == Norm(x) = Norm(y)

CosT == <<R(1), Half(1), R(0), Half(-1), R(-1), Half(-1), R(0), Half(1)>>
Cos(k) == CosT[(k % 8) + 1]
Sin(k) == Cos(k - 2)

\* pixels are numbered along the columns first
Col(p) == (p % Case.ncol) + 1
Row(p) == (p \div Case.ncol) + 1
Del(im, p) == Case.ang[im].del - Case.rowoff[Row(p)]
Gam(im, p) == Case.ang[im].gam - Case.coloff[Col(p)]

QTheta(im, p) ==
    LET a == Case.ang[im]
        d == Del(im, p)
        g == Gam(im, p)
    IN << Sub(Neg(Sin(g)), Sin(a.mu)),
          Sub(Mul(Cos(d - a.theta), Cos(g)), Mul(Cos(a.theta), Cos(a.mu))),
          Add(Mul(Sin(d - a.theta), Cos(g)), Mul(Sin(a.theta), Cos(a.mu))) >>
Dot(u, v) == Norm(Add(Add(Mul(u[1], v[1]), Mul(u[2], v[2])), Mul(u[3], v[3])))
Rot(im) ==
    LET x == Case.ang[im].chi f == Case.ang[im].phi
    IN << <<Cos(x), R(0), Neg(Sin(x))>>,
          <<Mul(Sin(f), Sin(x)), Cos(f), Mul(Sin(f), Cos(x))>>,
          <<Mul(Cos(f), Sin(x)), Neg(Sin(f)), Mul(Cos(f), Cos(x))>> >>
QPhi(im, v) == [k \in 1 .. 3 |-> Dot(Rot(im)[k], v)]
\* the lattice frame has its axes as (q3, q2, -q1)
Hkl(v) == [k \in 1 .. 3 |->
    Norm(Add(Add(Scale(Case.ubi[k][1], v[3]), Scale(Case.ubi[k][2], v[2])), Neg(Scale(Case.ubi[k][3], v[1]))))]

Zero3 == <<R(0), R(0), R(0)>>
Init == /\ c \in 1 .. Len(Cases)
        /\ stage = [im \in 1 .. Len(Cases[c].ang) |-> 0]
        /\ q = [im \in 1 .. Len(Cases[c].ang) |-> [p \in 1 .. (Cases[c].ncol * Cases[c].nrow) |-> Zero3]]

LastStage == IF Case.mode = 1 THEN 1 ELSE IF Case.mode = 4 THEN 3 ELSE 2
Ready == {im \in 1 .. NImg : stage[im] < LastStage}
Pick == IF Ordered THEN {im \in Ready : \A k \in Ready : im <= k} ELSE Ready
Step(im) ==
    /\ im \in Pick
    /\ stage' = [stage EXCEPT ![im] = @ + 1]
    /\ q' = [q EXCEPT ![im] = [p \in 1 .. NPix |->
                CASE stage[im] = 0 -> [k \in 1 .. 3 |-> Norm(QTheta(im, p - 1)[k])]
                  [] stage[im] = 1 -> QPhi(im, @[p])
                  [] stage[im] = 2 -> Hkl(@[p])]]
    /\ UNCHANGED c
Next == \E im \in 1 .. NImg : Step(im)
Spec == Init /\ [][Next]_vars

Done == Ready = {}
Len2(v) == Norm(Dot(v, v))
\* the scattered wave vector has the length of the incident one, so |Q|^2 is
\* 2 (1 - cos of the angle between them); the sample rotations keep |Q|
Elastic == \A im \in 1 .. NImg : \A p \in 1 .. NPix :
    stage[im] = 1 =>
      LET a == Case.ang[im] d == Del(im, p - 1) g == Gam(im, p - 1)
          cosang == Sub(Mul(Mul(Cos(d), Cos(g)), Cos(a.mu)), Mul(Sin(g), Sin(a.mu)))
      IN Eq(Len2(q[im][p]), Scale(2, Sub(R(1), cosang)))
RotKeeps == \A im \in 1 .. NImg : \A p \in 1 .. NPix :
    stage[im] = 2 => Eq(Len2(q[im][p]), Len2(QTheta(im, p - 1)))
\* an image depends on its own angles only, whatever the order of the images
Independent == Done => \A im \in 1 .. NImg : \A p \in 1 .. NPix :
    LET t == [k \in 1 .. 3 |-> Norm(QTheta(im, p - 1)[k])]
        f == QPhi(im, t)
    IN q[im][p] = (IF Case.mode = 1 THEN t ELSE IF Case.mode = 4 THEN Hkl(f) ELSE f)
Report == (Done /\ Ordered) => Emit([case |-> c, q |-> q])
=============================================================================
