------------------------------ MODULE MCCuller -----------------------------
(* Culling: what the classification says about the points of the grid.     *)
EXTENDS MC

Gx == -9..9
\* clip space: -w <= x, y, z <= w
Inside(m, x) == LET y == MulM(m, Raw(4, 1, 1, <<x[1], x[2], x[3], 1>>)) IN
    \A k \in 1..3 : -y.v[4] <= y.v[k] /\ y.v[k] <= y.v[4]
\* perspective and orthographic projections, moved and turned; integer
Ps == {Raw(4, 4, 1, <<2, 0, 0, 0,  0, 2, 0, 0,  0, 0, -3, -8,  0, 0, -1, 0>>),
       Raw(4, 4, 1, <<1, 0, 0, 0,  0, 2, 1, 0,  0, 0, -5, -12,  0, 0, -1, 0>>),
       Raw(4, 4, 1, <<1, 0, 0, 1,  0, 1, 0, 0,  0, 0, -1, -1,  0, 0, 0, 4>>),
       Raw(4, 4, 1, <<1, 0, 0, 0,  0, 1, 0, 0,  0, 0, -1, 0,  0, 0, 0, 5>>)}
Vs == {IdM(4), Raw(4, 4, 1, <<0, 0, -1, 1,  0, 1, 0, -2,  1, 0, 0, 0,  0, 0, 0, 1>>),
       Raw(4, 4, 1, <<1, 1, 0, 2,  -1, 1, 0, 0,  0, 0, 1, -3,  0, 0, 0, 1>>),
       Raw(4, 4, 1, <<1, 0, 0, -2,  0, 1, 0, 1,  0, 0, 1, 3,  0, 0, 0, 1>>)}
\* corner k of the clip cube (order of register 1) for the first kinds of projection
Spheres(n, m) == {Raw(4, 1, 1, p) : p \in {s \in Some(n, m, [1..4 -> -6..6]) : s[4] >= 0}}
Boxes(n, m) == {Raw(3, 2, 1, p) : p \in Some(n, m, [1..6 -> -6..6])}
\* corners: boxes (near is greater z), pyramids
Corners(n, m) == {LET l == s[1] r == s[1] + s[2] b == s[3] t == s[3] + s[4] f == s[5] k == s[6] IN
      Raw(8, 3, 1, <<l, t, -f, r, t, -f, l, b, -f, r, b, -f, k*l, k*t, -f-s[7], k*r, k*t, -f-s[7], k*l, k*b, -f-s[7], k*r, k*b, -f-s[7]>>) :
    s \in {x \in Some(n, m, [1..7 -> -3..4]) : x[2] > 0 /\ x[4] > 0 /\ x[7] > 0 /\ x[6] \in {1, 2}}}
Init == Begins("culler", <<0>>,
    {<< <<0, MulM(p, v)>>, <<2, s>>, <<3, b>> >> : p \in Ps, v \in Vs, s \in Spheres(12, 40), b \in Boxes(6, 20)} \cup
    {<< <<1, c>>, <<2, s>>, <<3, b>> >> : c \in Corners(160, 1500), s \in Spheres(6, 12), b \in Boxes(3, 6)})
Next == \/ Len(hist) = 0 /\ Goes(IF R(1) = ZeroM(8, 3) THEN {Cm("setm", <<>>)} ELSE {Cm("setc", <<>>)})
        \/ Len(hist) = 1 /\ Goes({Cm("sph", <<>>), Cm("box", <<>>)})

\* points of the frustum: half-spaces of the faces that hold the other corners
FacePoint(m, i) == <<E(m, i, 0), E(m, i, 1), E(m, i, 2)>>
Side3(p, q, r, x) == DetN(Raw(3, 3, 1, [k \in 1..3 |-> q[k] - p[k]] \o [k \in 1..3 |-> r[k] - p[k]] \o [k \in 1..3 |-> x[k] - p[k]]))
FaceCorners == << <<0, 2, 6>>, <<1, 5, 7>>, <<2, 3, 7>>, <<0, 4, 5>>, <<0, 1, 3>>, <<4, 6, 7>> >>
Opposite == <<1, 0, 0, 2, 4, 0>>
InHull(m, x) == \A f \in 1..6 : LET g == FaceCorners[f]
                                    p == FacePoint(m, g[1]) q == FacePoint(m, g[2]) r == FacePoint(m, g[3])
                                    s == Side3(p, q, r, FacePoint(m, Opposite[f])) t == Side3(p, q, r, x)
                                IN Sgn(s) * Sgn(t) >= 0
In_(x) == IF pre[2] = ZeroM(8, 3) THEN Inside(P(0), x) ELSE InHull(P(1), x)
Ball_(s) == {x \in (-2..2) \X (-2..2) \X (-2..2) : x[1] * x[1] + x[2] * x[2] + x[3] * x[3] <= s.v[4] * s.v[4]}
Between(b, k) == Min2(E(b, k, 0), E(b, k, 1))..Max2(E(b, k, 0), E(b, k, 1))
Ends(b, k) == {E(b, k, 0), E(b, k, 1)} \cup {(E(b, k, 0) + E(b, k, 1)) \div 2}
\* on one of the planes
OnBorder(x) == \E j \in 1..6 : aux[j][1] * x[1] + aux[j][2] * x[2] + aux[j][3] * x[3] + aux[j][4] = 0
Law == Done => LET c == Last IN
    /\ Only({})
    \* every plane of the frustum has the whole of it in front
    /\ (c.op = "setc" /\ DetN(SubM(SubMat(R(1), 3, 3, 1, 0), Mk(3, 3, 1, LAMBDA i, j : E(R(1), 0, j)))) # 0) =>
         \A j \in 1..6 : LET p == aux[j] on(i) == p[1] * E(R(1), i, 0) + p[2] * E(R(1), i, 1) + p[3] * E(R(1), i, 2) + p[4] IN
              /\ \A i \in 0..7 : on(i) >= 0
              /\ Cardinality({i \in 0..7 : on(i) = 0}) = 4
    \* nothing invisible is seen, everything visible is inside
    /\ c.op = "sph" => LET s == P(2) pts == {<<s.v[1] + x[1], s.v[2] + x[2], s.v[3] + x[3]>> : x \in Ball_(s)} IN
         /\ out.v = <<0>> => \A x \in pts : ~In_(x) \/ OnBorder(x)
         /\ out.v = <<2>> => \A x \in pts : In_(x)
    /\ c.op = "box" => LET b == P(3) pts == Ends(b, 0) \X Ends(b, 1) \X Ends(b, 2) IN
         /\ out.v = <<0>> => \A x \in pts : ~In_(x) \/ OnBorder(x)
         /\ out.v = <<2>> => \A x \in pts : In_(x)
Emit == Export(Len(hist) = 2)
=============================================================================
