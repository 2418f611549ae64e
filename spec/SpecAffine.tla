----------------------------- MODULE SpecAffine -----------------------------
(***************************************************************************)
(* Affine transforms (4x4 matrices), matrix-vector products, quaternions.  *)
(***************************************************************************)
EXTENDS Machine

RECURSIVE QPow(_, _)
QPow(a, n) == IF n = 0 THEN Raw(4, 1, 1, <<0, 0, 0, 1>>) ELSE QMul(QPow(a, n - 1), a)

----------------------------------------------------------------------------
(* Transform machine "affine"; registers: 0, 1 4x4 matrices, 2, 3 vectors  *)
(* of three components.                                                    *)

AffineInit(p) == << IdM(4), IdM(4), ZeroM(3, 1), ZeroM(3, 1) >>

\* rotation by the angle (c, s) / h about the coordinate axis 0, 1, 2
AxisRot(axis, c, s, h) ==
    To4(RotM(c, s, h, Bool(axis = 0), Bool(axis = 1), Bool(axis = 2), 1))
FullRot(a) == To4(RotM(a[1], a[2], a[3], a[4], a[5], a[6], a[7]))
\* the fourth column of the first three rows becomes (x, y, z) / q
WithTranslation(m, x, y, z, q) == Paste(m, Raw(3, 1, q, <<x, y, z>>), 0, 3)

StepAffine(c) == LET a == c.a IN
    CASE c.op = "mul"  -> Write(a[1], MulM(R(a[2]), R(a[3])))
      [] c.op = "mulip" -> Write(a[1], MulM(R(a[1]), R(a[2])))
      [] c.op = "cp"   -> Write(a[1], R(a[2]))
      [] c.op = "tr"   -> Write(a[1], TransM(R(a[2])))
      \* the rotation about an axis replaces the matrix
      [] c.op = "rot"  -> Write(a[1], FullRot(From(a, 2)))
      \* ... and is applied first
      [] c.op = "arot" -> Write(a[1], MulM(R(a[1]), FullRot(From(a, 2))))
      \* rotations about the coordinate axes are applied first
      [] c.op = "rax"  -> Write(a[1], MulM(R(a[1]), AxisRot(a[2], a[3], a[4], a[5])))
      \* pre-rotations: last and in the opposite sense
      [] c.op = "pra"  -> Write(a[1], MulM(AxisRot(a[2], a[3], -a[4], a[5]), R(a[1])))
      \* d, q, x, y, z
      [] c.op = "scl"  -> Write(a[1], MulM(R(a[1]), ScaleIM(a[3], a[4], a[5], a[2])))
      [] c.op = "cscl" -> Write(a[1], ScaleIM(a[3], a[4], a[5], a[2]))
      [] c.op = "ctra" -> Write(a[1], TransIM(a[3], a[4], a[5], a[2]))
      [] c.op = "atra" -> Write(a[1], MulM(R(a[1]), TransIM(a[3], a[4], a[5], a[2])))
      [] c.op = "stra" -> Write(a[1], WithTranslation(R(a[1]), a[3], a[4], a[5], a[2]))
      [] c.op = "sctr" -> Write(a[1], LET m == R(a[1]) IN
              WithTranslation(m, E(m,0,3) * a[3], E(m,1,3) * a[4], E(m,2,3) * a[5], m.q * a[2]))
      [] c.op = "gtra" -> Write(a[2], SubMat(R(a[1]), 3, 1, 0, 3))
      [] c.op = "wxyz" -> Write(a[1], Paste(R(a[1]), Raw(1, 1, 1, <<a[3]>>), a[2], 3))
      [] c.op = "rxyz" -> Query(RetQ(R(a[1]).q, <<E(R(a[1]), a[2], 3)>>))
      [] c.op = "idn"  -> Write(a[1], IdM(4))
      \* transformation of a point
      [] c.op = "pt"   -> LET m == R(a[1]) v == R(a[2])
                              x == MulM(m, Raw(4, 1, v.q, v.v \o <<v.q>>))
                          IN Write(3, Raw(3, 1, Abs(V(x, 3)), [k \in 1..3 |-> Sgn(V(x, 3)) * x.v[k]]))

----------------------------------------------------------------------------
(* Matrix-vector machine "matvec", par = <<M, N>>; registers: 0, 1 M x N   *)
(* matrices, 2 an N-vector, 3 an M-vector, 4, 5 points of N-1 components.  *)

MatVecInit(p) == << Fresh(p[1], p[2]), Fresh(p[1], p[2]), ZeroM(p[2], 1), ZeroM(p[1], 1),
                    ZeroM(p[2] - 1, 1), ZeroM(p[2] - 1, 1) >>
Homog(v) == Raw(v.r + 1, 1, v.q, v.v \o <<v.q>>)
\* the homogeneous coordinate is not zero
Dehomog(x) == LET w == V(x, x.r - 1) IN
    Raw(x.r - 1, 1, Abs(w), [k \in 1..(x.r - 1) |-> Sgn(w) * x.v[k]])
StepMatVec(c) == LET a == c.a IN
    CASE c.op = "mv"   -> Write(3, MulM(R(a[1]), R(2)))
      [] c.op = "back" -> Write(2, R(3))    \* square matrices only
      [] c.op = "hom"  -> Write(a[3], Dehomog(MulM(R(a[1]), Homog(R(a[2])))))
      [] c.op = "mm"   -> Write(a[1], MulM(R(a[2]), R(a[3])))
      \* the product of both matrices applied to the vector
      [] c.op = "chain" -> Write(3, MulM(R(a[1]), MulM(R(a[2]), R(2))))
      [] c.op = "cp"   -> Write(a[1], R(a[2]))
      \* the translation: the last column without its homogeneous coordinate
      [] c.op = "gtr"  -> LET m == R(a[1]) IN
                          Write(a[2], Raw(m.c - 1, 1, m.q, [k \in 1..(m.c - 1) |-> E(m, k - 1, m.c - 1)]))

----------------------------------------------------------------------------
(* Quaternion machine "quat"; registers: 0..2 quaternions (x, y, z, w),    *)
(* 3, 4 three-vectors, 5 a 3x3, 6 a 4x4 matrix.                            *)

QuatInit(p) == << Raw(4, 1, 1, <<0, 0, 0, 1>>), Raw(4, 1, 1, <<0, 0, 0, 1>>),
                  Raw(4, 1, 1, <<0, 0, 0, 1>>), ZeroM(3, 1), ZeroM(3, 1), IdM(3), IdM(4) >>
Pure(v) == Raw(4, 1, v.q, v.v \o <<0>>)
Axis(v) == Raw(3, 1, v.q, SubSeq(v.v, 1, 3))
\* inverse: conjugate over the squared absolute value # 0
QInv(a) == LET s == DotN(a, a) IN
    Raw(4, 1, s, [k \in 1..4 |-> (IF k = 4 THEN 1 ELSE -1) * a.v[k] * a.q])
QNear(a, b, t) == \A k \in 1..4 : 2 * Abs(a.v[k] - b.v[k]) <= t
QUnitSq(m) == LET n == DotN(m, m) IN
    RetQ(Max2(1, n), [k \in 1..4 |-> Sgn(m.v[k]) * m.v[k] * m.v[k]])
QRoot(n, q) == RetQ(q * q, <<Sgn(n) * q * q, n>>)
\* the ten products x x, x y, x z, x w, y y, ... of the components of the
\* unit quaternion of the rotation m
Products(m) == LET e(i, j) == E(m, i, j) q == m.q IN
    RetQ(4 * q,
       << q + e(0,0) - e(1,1) - e(2,2), e(0,1) + e(1,0), e(0,2) + e(2,0), e(2,1) - e(1,2),
          q - e(0,0) + e(1,1) - e(2,2), e(1,2) + e(2,1), e(0,2) - e(2,0),
          q - e(0,0) - e(1,1) + e(2,2), e(1,0) - e(0,1),
          q + e(0,0) + e(1,1) + e(2,2) >>)
\* slerp from f1 p to f2 q with q = p r^m (p, r of integer norms np, nr), at
\* j / m: p r^j / (np nr^j) if the whole arc is below 90 degrees
Slerp(d, p, r, j, np, nr) ==
    Write(d, LET x == QMul(p, QPow(r, j)) IN Raw(4, 1, np * Pow(nr, j), x.v))
\* slerp of close orientations (within the epsilon): normalized linear
\* interpolation on the shorter side, from p / np to (p r) / (np nr) at j / m
SlerpLin(p, r, j, m, nr) ==
    LET g == QMul(p, r)
        s == IF V(r, 3) < 0 THEN -1 ELSE 1
    IN Query(QUnitSq(Raw(4, 1, 1, [k \in 1..4 |-> (m - j) * nr * p.v[k] + j * s * g.v[k]])))
\* the ends of any slerp: p, or q on the side of p (dot product # 0)
SlerpEnd(a, b, end) == LET p == R(a) q == R(b) IN
    Query(IF end = 0 THEN QUnitSq(p) ELSE
          IF DotN(p, q) > 0 THEN QUnitSq(q) ELSE QUnitSq(NegM(q)))
Seq4(a) == SubSeq(a, 1, 4)

StepQuat(c) == LET a == c.a IN
    CASE c.op = "add"  -> Write(a[1], AddM(R(a[2]), R(a[3])))
      [] c.op = "sub"  -> Write(a[1], SubM(R(a[2]), R(a[3])))
      [] c.op = "mul"  -> Write(a[1], QMul(R(a[2]), R(a[3])))
      [] c.op = "addip" -> Write(a[1], AddM(R(a[1]), R(a[2])))
      [] c.op = "subip" -> Write(a[1], SubM(R(a[1]), R(a[2])))
      [] c.op = "mulip" -> Write(a[1], QMul(R(a[1]), R(a[2])))
      [] c.op = "muls" -> Write(a[1], ScaleM(R(a[2]), a[3], 1))
      [] c.op = "divs" -> IF a[3] = 0 THEN Reject ELSE Write(a[1], DivM(R(a[2]), a[3], 1))
      [] c.op = "neg"  -> Write(a[1], NegM(R(a[2])))
      [] c.op = "conj" -> Write(a[1], QConj(R(a[2])))
      [] c.op = "inv"  -> Write(a[1], QInv(R(a[2])))
      [] c.op = "cp"   -> Write(a[1], R(a[2]))
      [] c.op = "zero" -> Write(a[1], ZeroM(4, 1))
      [] c.op = "named" -> Write(a[1], Raw(4, 1, 1, [k \in 1..4 |-> Bool(k = a[2])]))
      [] c.op = "set"  -> Write(a[1], Raw(4, 1, 1, From(a, 3)))
      \* with three-vectors, which act as pure quaternions
      [] c.op = "addv" -> Write(a[1], AddM(R(a[2]), Pure(R(a[3]))))
      [] c.op = "subv" -> Write(a[1], SubM(R(a[2]), Pure(R(a[3]))))
      [] c.op = "mulv" -> Write(a[1], QMul(R(a[2]), Pure(R(a[3]))))
      [] c.op = "fromv" -> Write(a[1], LET v == R(a[2]) IN Raw(4, 1, v.q, v.v \o <<a[3] * v.q>>))
      [] c.op = "cross" -> Write(a[1], CrossM(Axis(R(a[2])), Axis(R(a[3]))))
      [] c.op = "dot"  -> Query(RetQ(R(a[1]).q * R(a[2]).q, <<DotN(R(a[1]), R(a[2]))>>))
      [] c.op = "sqabs" -> Query(RetQ(R(a[1]).q * R(a[1]).q, <<DotN(R(a[1]), R(a[1]))>>))
      [] c.op = "abs"  -> Query(QRoot(DotN(R(a[1]), R(a[1])), R(a[1]).q))
      [] c.op = "norm" -> Query(QUnitSq(R(a[1])))
      [] c.op = "eq"   -> LET e == Bool(Same(R(a[1]), R(a[2]))) IN Query(RetI(<<e, 1 - e, e, 1 - e>>))
      [] c.op = "eqs"  -> LET m == R(a[1])
                              e == Bool(m.v = <<0, 0, 0, a[2] * m.q>>) IN Query(RetI(<<e, 1 - e>>))
      [] c.op = "nan"  -> Query(RetI(<<0, 1, 0, 0, 0>>))
      [] c.op = "near" -> Query(RetI(<<Bool(QNear(R(a[1]), R(a[2]), a[3]))>>))
      [] c.op = "find" -> LET m == R(a[1])
                              S == Elems(m)
                              x == IF a[2] = 0 THEN SetMin(S) ELSE SetMax(S)
                              k == CHOOSE i \in 1..4 : m.v[i] = x /\ \A j \in 1..(i - 1) : m.v[j] # x
                          IN Query(RetQ(m.q, <<(k - 1) * m.q, x>>))
      \* rotation matrix of a quaternion: the upper left 3x3 block
      [] c.op = "tom"  -> Write(a[1], IF R(a[1]).r = 3 THEN QRot(R(a[2]))
                                       ELSE Paste(R(a[1]), QRot(R(a[2])), 0, 0))
      \* quaternion of a rotation matrix
      [] c.op = "frm"  -> Query(Products(R(a[1])))
      \* rotation of a vector by its product with the matrix
      [] c.op = "mv"   -> Write(a[1], MulM(R(5), R(a[2])))
      \* rotation by the angle (c, s) / h about the axis of length n; the axis
      \* becomes a unit vector
      [] c.op = "rot"  -> Set2(a[1], Pure(MulM(RotM(a[3], a[4], a[5], a[6], a[7], a[8], a[9]), R(a[2]))),
                               4, Raw(3, 1, a[9], SubSeq(a, 6, 8))) /\ out' = Void /\ Frame
      [] c.op = "rax"  -> Write(a[1], Pure(MulM(RotM(a[4], a[5], a[6], Bool(a[3] = 0), Bool(a[3] = 1),
                                                     Bool(a[3] = 2), 1), R(a[2]))))
      [] c.op = "slrp" -> Slerp(a[1], Raw(4, 1, 1, SubSeq(a, 2, 5)), Raw(4, 1, 1, SubSeq(a, 7, 10)),
                                a[12], a[6], a[11])
      [] c.op = "slin" -> SlerpLin(Raw(4, 1, 1, SubSeq(a, 2, 5)), Raw(4, 1, 1, SubSeq(a, 7, 10)),
                                   a[12], a[13], a[11])
      [] c.op = "slend" -> SlerpEnd(a[1], a[2], a[3])
=============================================================================
