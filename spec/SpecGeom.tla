------------------------------ MODULE SpecGeom ------------------------------
(***************************************************************************)
(* Bounding boxes, frusta, frustum culling, ray-sphere intersection.       *)
(***************************************************************************)
EXTENDS Machine

----------------------------------------------------------------------------
(* Bounding box machine "aabb"; registers: 0..2 boxes <<minimum, maximum>> *)
(* (6 numbers), 3, 4 points, 5 sphere (centre, radius), 6 result vector.   *)
(* The numerator +-Inf stands for infinity whatever the denominator is.    *)

Inf == 1000000000
EmptyBox == Raw(6, 1, 1, <<Inf, Inf, Inf, -Inf, -Inf, -Inf>>)
AabbInit(p) == << EmptyBox, EmptyBox, EmptyBox, ZeroM(3, 1), ZeroM(3, 1), ZeroM(4, 1), ZeroM(3, 1) >>

\* multiple of a numerator that may be infinite
Times(x, f) == IF Abs(x) = Inf THEN x ELSE x * f
Rescale(m, q) == Raw(m.r, 1, q, [k \in 1..m.r |-> Times(m.v[k], q \div m.q)])
Lo(b) == Raw(3, 1, b.q, SubSeq(b.v, 1, 3))
Hi(b) == Raw(3, 1, b.q, SubSeq(b.v, 4, 6))
Box(lo, hi) == LET q == Lcm(lo.q, hi.q) IN Raw(6, 1, q, Rescale(lo, q).v \o Rescale(hi, q).v)
\* component-wise extremes
VMin(a, b) == LET q == Lcm(a.q, b.q) x == Rescale(a, q) y == Rescale(b, q) IN
              Raw(3, 1, q, [k \in 1..3 |-> Min2(x.v[k], y.v[k])])
VMax(a, b) == LET q == Lcm(a.q, b.q) x == Rescale(a, q) y == Rescale(b, q) IN
              Raw(3, 1, q, [k \in 1..3 |-> Max2(x.v[k], y.v[k])])
Hull(a, b) == Box(VMin(Lo(a), Lo(b)), VMax(Hi(a), Hi(b)))
HullP(a, p) == Box(VMin(Lo(a), p), VMax(Hi(a), p))
BoxEmpty(b) == \E k \in 1..3 : b.v[k] >= b.v[k + 3]
\* the point is in the box in the first n dimensions
InBox(b, p, n) == \A k \in 1..n : b.v[k] * p.q <= p.v[k] * b.q /\ p.v[k] * b.q <= b.v[k + 3] * p.q
Ball(s) == LET r == V(s, 3) IN
    Raw(6, 1, s.q, [k \in 1..6 |-> IF k <= 3 THEN s.v[k] - r ELSE s.v[k - 3] + r])
BallIn(b, s) == LET e == Ball(s) IN
    \A k \in 1..3 : b.v[k] * e.q <= e.v[k] * b.q /\ e.v[k + 3] * b.q <= b.v[k + 3] * e.q
SameBox(a, b) == LET q == Lcm(a.q, b.q) IN Rescale(a, q).v = Rescale(b, q).v
\* both corners times, over, plus or minus the scalar n
BoxScalar(b, f, n) ==
    CASE f = 0 -> ScaleM(b, n, 1) [] f = 1 -> DivM(b, n, 1)
      [] f = 2 -> ShiftM(b, n, 1) [] f = 3 -> ShiftM(b, -n, 1)

StepAabb(c) == LET a == c.a IN
    CASE c.op = "empty" -> Write(a[1], EmptyBox)
      [] c.op = "unit" -> Write(a[1], Raw(6, 1, 1, <<0, 0, 0, 1, 1, 1>>))
      [] c.op = "cp"   -> Write(a[1], R(a[2]))
      [] c.op = "box"  -> Write(a[1], Box(R(a[2]), R(a[3])))
      [] c.op = "smin" -> Write(a[1], Box(R(a[2]), Hi(R(a[1]))))
      [] c.op = "smax" -> Write(a[1], Box(Lo(R(a[1])), R(a[2])))
      [] c.op = "ball" -> Write(a[1], Ball(R(5)))
      [] c.op = "mgp"  -> Write(a[1], HullP(R(a[1]), R(a[2])))
      [] c.op = "mgb"  -> Write(a[1], Hull(R(a[1]), R(a[2])))
      [] c.op = "sca"  -> Write(a[1], BoxScalar(R(a[2]), a[3], a[4]))
      [] c.op = "in"   -> Query(RetI(<<Bool(InBox(R(a[1]), R(a[2]), 3))>>))
      [] c.op = "in2"  -> Query(RetI(<<Bool(InBox(R(a[1]), R(a[2]), 2))>>))
      [] c.op = "ins"  -> Query(RetI(<<Bool(BallIn(R(a[1]), R(5)))>>))
      [] c.op = "emp"  -> Query(RetI(<<Bool(BoxEmpty(R(a[1])))>>))
      [] c.op = "ctr"  -> Write(6, ScaleM(AddM(Lo(R(a[1])), Hi(R(a[1]))), 1, 2))
      [] c.op = "dim"  -> Write(6, SubM(Hi(R(a[1])), Lo(R(a[1]))))
      [] c.op = "eq"   -> LET e == Bool(SameBox(R(a[1]), R(a[2]))) IN Query(RetI(<<e, 1 - e>>))
      [] c.op = "get"  -> Write(a[3], IF a[2] = 0 THEN Lo(R(a[1])) ELSE Hi(R(a[1])))

----------------------------------------------------------------------------
(* Frustum machine "frustum"; registers: 0, 1 frusta (left, right, bottom, *)
(* top, near, far), 2 a 4x4 matrix.                                        *)

FrustumInit(p) == << ZeroM(6, 1), ZeroM(6, 1), IdM(4) >>

\* differences of opposite planes (numerators); none is zero
Dx(f) == f.v[2] - f.v[1]
Dy(f) == f.v[4] - f.v[3]
Dz(f) == f.v[6] - f.v[5]
\* n / d as a numerator over the multiple q of d
Over_(n, d, q) == n * (q \div Abs(d)) * Sgn(d)
PerspMatrix(f) ==
    LET L == LcmAll(<<Dx(f), Dy(f), Dz(f)>>, 3)
        Q == L * f.q
        e(n, d) == Over_(n, d, L) * f.q
    IN Raw(4, 4, Q,
       << e(2 * f.v[5], Dx(f)), 0, e(f.v[2] + f.v[1], Dx(f)), 0,
          0, e(2 * f.v[5], Dy(f)), e(f.v[4] + f.v[3], Dy(f)), 0,
          0, 0, -e(f.v[6] + f.v[5], Dz(f)), -Over_(2 * f.v[6] * f.v[5], Dz(f), L),
          0, 0, -Q, 0 >>)
OrthoMatrix(f) ==
    LET L == LcmAll(<<Dx(f), Dy(f), Dz(f)>>, 3)
        e(n, d) == Over_(n, d, L)
    IN Raw(4, 4, L,
       << e(2 * f.q, Dx(f)), 0, 0, -e(f.v[2] + f.v[1], Dx(f)),
          0, e(2 * f.q, Dy(f)), 0, -e(f.v[4] + f.v[3], Dy(f)),
          0, 0, -e(2 * f.q, Dz(f)), -e(f.v[6] + f.v[5], Dz(f)),
          0, 0, 0, L >>)
\* the near plane becomes n / q; the pyramid stays the same
AdjustNear(f, n, q) ==
    LET den == f.v[5] * q  \* ratio = n f.q / (f.v[5] q)
        Q == f.q * Abs(den)
    IN Raw(6, 1, Q, [k \in 1..6 |->
          IF k <= 4 THEN f.v[k] * n * f.q * Sgn(den)
          ELSE IF k = 5 THEN n * (Q \div q) ELSE f.v[6] * (Q \div f.q)])
Jitter(f, x, y, q) == LET Q == Lcm(f.q, q) g == Over(f, Q) IN
    Raw(6, 1, Q, [k \in 1..6 |-> g.v[k] + (IF k <= 2 THEN x ELSE IF k <= 4 THEN y ELSE 0) * (Q \div q)])
\* tangent of half the field of view tn / td, aspect ratio an / ad, near n,
\* far f
Perspective(tn, td, an, ad, n, f) ==
    Raw(6, 1, td * ad, << -tn * an * n, tn * an * n, -tn * ad * n, tn * ad * n,
                          n * td * ad, f * td * ad >>)

StepFrustum(c) == LET a == c.a IN
    CASE c.op = "set"  -> Write(a[1], Raw(6, 1, a[3], From(a, 4)))
      [] c.op = "cp"   -> Write(a[1], R(a[2]))
      [] c.op = "dflt" -> Write(a[1], Raw(6, 1, 10, <<-10, 10, -10, 10, 1, 1000>>))
      [] c.op = "none" -> Write(a[1], ZeroM(6, 1))
      [] c.op = "wr"   -> Write(a[1], LET m == R(a[1]) IN [m EXCEPT !.v[a[2] + 1] = a[3] * m.q])
      [] c.op = "rd"   -> Query(RetQ(R(a[1]).q, <<V(R(a[1]), a[2])>>))
      [] c.op = "mat"  -> Write(2, PerspMatrix(R(a[1])))
      [] c.op = "orth" -> Write(2, OrthoMatrix(R(a[1])))
      [] c.op = "adj"  -> Write(a[1], IF a[2] * R(a[1]).q = R(a[1]).v[5] * a[3] THEN R(a[1])
                                      ELSE AdjustNear(R(a[1]), a[2], a[3]))
      [] c.op = "jit"  -> Write(a[1], Jitter(R(a[1]), a[2], a[3], a[4]))
      [] c.op = "persp" -> Write(a[1], Perspective(a[2], a[3], a[4], a[5], a[6], a[7]))
      [] c.op = "wh"   -> Query(RetQ(R(a[1]).q, <<Abs(Dx(R(a[1]))), Abs(Dy(R(a[1])))>>))

----------------------------------------------------------------------------
(* Culling machine "culler", par = <<single precision?>>; registers: 0 the *)
(* projection, 1 the 8 corners (rows: near left top, near right top, near  *)
(* left bottom, near right bottom, the same far), 2 sphere, 3 box (rows:   *)
(* x, y, z; columns: both ends).  aux: the six planes of the frustum,      *)
(* <<n1, n2, n3, w, exact>> with n . p + w > 0 inside.                     *)

CullerInit(p) == << IdM(4), ZeroM(8, 3), ZeroM(4, 1), ZeroM(3, 2) >>

\* a plane in lowest terms, and whether its unit normal is free of rounding:
\* parallel to an axis with a power of two as length
Reduced(s) == LET g == Max2(1, GcdAll(s, 4))
                  n == Abs(s[1]) + Abs(s[2]) + Abs(s[3])
                  axis == Cardinality({k \in 1..3 : s[k] # 0}) = 1
              IN [k \in 1..4 |-> s[k] \div g] \o
                 <<Bool(axis /\ n \in {Pow(2, e) : e \in 0..20})>>
\* the clip space condition -w <= x, y, z <= w
PlanesOfMatrix(m) ==
    [j \in 1..6 |-> LET r == (j - 1) \div 2 s == IF j % 2 = 1 THEN 1 ELSE -1 IN
        Reduced([k \in 1..4 |-> E(m, 3, k - 1) + s * E(m, r, k - 1)])]
Corner(m, i) == SubMat(m, 1, 3, i, 0)
Point(m, i) == Raw(3, 1, 1, Corner(m, i).v)
\* three corners of each face: left right bottom top near far
Faces == << <<0, 2, 4>>, <<1, 3, 5>>, <<2, 3, 6>>, <<0, 1, 4>>, <<0, 1, 2>>, <<4, 5, 6>> >>
\* planes through the faces, the centre of the corners on the positive side
PlanesOfCorners(m) ==
    LET Sum8(j) == SumR(LAMBDA i : E(m, i, j), 0, 7) IN
    [f \in 1..6 |->
       LET p == Point(m, Faces[f][1])
           n == CrossM(SubM(Point(m, Faces[f][2]), p), SubM(Point(m, Faces[f][3]), p))
           w == -DotN(n, p)
           s == Sgn(SumR(LAMBDA j : V(n, j) * Sum8(j), 0, 2) + 8 * w)
       IN Reduced(<<s * V(n, 0), s * V(n, 1), s * V(n, 2), s * w>>)]
NormSq(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
ExactPlane(p) == p[5] = 1

\* classification of a difference lhs - rhs of sides of the order of size:
\* the possible truth values of lhs >= rhs
GeqSet(diff, size, exact) ==
    IF exact THEN {diff >= 0}
    ELSE IF diff = 0 \/ (par[1] = 1 /\ Abs(diff) <= size \div 10000) THEN {TRUE, FALSE}
    ELSE {diff >= 0}
\* signed square
SSq(x) == Sgn(x) * x * x
\* per plane: 0 behind, 1 crossing, 2 in front; sets because of rounding.
\* Sphere of radius r >= 0: in front iff d >= r |n|, behind iff d <= -r |n|
SpherePlane(p, s) ==
    LET d == p[1] * V(s,0) + p[2] * V(s,1) + p[3] * V(s,2) + p[4] * s.q
        dd == SSq(d)
        rr == V(s,3) * V(s,3) * NormSq(p)
        full == GeqSet(dd - rr, Max2(Abs(dd), rr), ExactPlane(p))
        none == GeqSet(-dd - rr, Max2(Abs(dd), rr), ExactPlane(p))
    IN {IF n THEN 0 ELSE IF f THEN 2 ELSE 1 : <<n, f>> \in none \X full}
\* Box: extreme values of n . p + w over it
BoxPlane(p, b) ==
    LET Lo_(k) == Min2(p[k] * E(b, k - 1, 0), p[k] * E(b, k - 1, 1))
        Hi_(k) == Max2(p[k] * E(b, k - 1, 0), p[k] * E(b, k - 1, 1))
        w == p[4] * b.q
        lo == Lo_(1) + Lo_(2) + Lo_(3) + w
        hi == Hi_(1) + Hi_(2) + Hi_(3) + w
        size == SumR(LAMBDA k : Max2(Abs(Lo_(k)), Abs(Hi_(k))), 1, 3) + Abs(w)
        full == GeqSet(lo, size, ExactPlane(p))
        none == GeqSet(-hi, size, ExactPlane(p))
    IN {IF f THEN 2 ELSE IF n THEN 0 ELSE 1 : <<n, f>> \in none \X full}
\* the least classification over all planes
Least(cl) == LET lo == SetMin({SetMin(cl[j]) : j \in 1..6})
                 hi == SetMin({SetMax(cl[j]) : j \in 1..6})
             IN lo..hi
Visibility(cl) == \E v \in Least(cl) : Query(RetI(<<v>>))

StepCuller(c) ==
    CASE c.op = "setm" -> aux' = PlanesOfMatrix(R(0)) /\ out' = Void /\ UNCHANGED <<kind, par, regs>>
      [] c.op = "setc" -> aux' = PlanesOfCorners(R(1)) /\ out' = Void /\ UNCHANGED <<kind, par, regs>>
      [] c.op = "sph"  -> Visibility([j \in 1..6 |-> SpherePlane(aux[j], R(2))])
      [] c.op = "box"  -> Visibility([j \in 1..6 |-> BoxPlane(aux[j], R(3))])

----------------------------------------------------------------------------
(* Ray machine "ray", par = <<single precision?>>; registers: 0 origin,    *)
(* 1 direction (not zero), 2 sphere; all over the denominator 1.           *)
(* Along the direction D from the origin, the parameter t of a hit fulfils *)
(* (t |D| - c.D)^2 = Delta with c the centre relative to the origin.       *)

RayInit(p) == << ZeroM(3, 1), ZeroM(3, 1), ZeroM(4, 1) >>
RayHit ==
    LET D == R(1) s == R(2)
        ce == SubM(Raw(3, 1, 1, SubSeq(s.v, 1, 3)), R(0))
        p == DotN(ce, D)
        N == DotN(D, D)
        c2 == DotN(ce, ce)
        r2 == V(s, 3) * V(s, 3)
        delta == (r2 - c2) * N + p * p
        exact == N \in {1, 4, 16, 64} /\ Abs(V(D,0)) + Abs(V(D,1)) + Abs(V(D,2)) = Sqrt(N)
        line == IF exact THEN {delta >= 0}
                ELSE IF delta = 0 \/ (par[1] = 1 /\ Abs(delta) <= (c2 * N) \div 20000) THEN {TRUE, FALSE}
                ELSE {delta >= 0}
        \* side: -1 nearer, 1 farther hit
        \* (a start on the surface counts as a start inside)
        d == IF c2 > r2 THEN -1 ELSE 1
    IN \E h \in (IF p < 0 /\ c2 > r2 THEN {FALSE} ELSE line) :
          Query(IF h THEN RetI(<<1, d * Max2(0, delta)>>) ELSE RetI(<<0, 0>>))

\* A ray along an axis; the centre of the sphere is w ahead, w^2 larger than
\* r^2, and p to the side; s^2 = r^2 - p^2 if the ray meets the sphere.
RayAxis(w, p, s, r) ==
    /\ Abs(w) > r /\ (p <= r => p * p + s * s = r * r)
    /\ Query(IF w < 0 \/ p > r THEN RetI(<<0, 0>>) ELSE RetI(<<1, w - s>>))

StepRay(c) == CASE c.op = "hit" -> RayHit
                [] c.op = "axis" -> RayAxis(c.a[3], c.a[4], c.a[5], c.a[6])
=============================================================================
