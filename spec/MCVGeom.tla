------------------------------- MODULE MCVGeom -----------------------------
(* Lengths, normalization, triangle normals, rotation.                     *)
EXTENDS MC

Axes == {<<1, 0, 0, 1>>, <<0, 0, -1, 1>>, <<0, 3, -4, 5>>, <<1, -2, 2, 3>>, <<2, 6, 3, 7>>}
Angles == {<<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-5, 12, 13>>}
Vecs(n) == {Raw(n, 1, 1, s) : s \in Some(6, 40, [1..n -> -2..3])} \cup {ZeroM(n, 1), Raw(n, 1, 1, [k \in 1..n |-> IF k = n THEN -4 ELSE 0])}
Init == \E m \in 2..4 : Begins("vecgeom", <<m>>, LET S == Vecs(m) IN
    {<< <<0, u>>, <<1, v>>, <<2, SubM(v, SubM(u, v))>> >> : u \in S, v \in S})
Cmds == {Cm("len", <<0, f>>) : f \in 0..1} \cup {Cm("dist", <<0, 1>>)} \cup {Cm("nrm", <<0, f>>) : f \in 0..2} \cup
        (IF par[1] # 3 THEN {} ELSE
           {Cm("norm", <<0, 1, 2, f>>) : f \in 0..1} \cup {Cm("norm", <<1, 0, 3, f>>) : f \in 0..1} \cup
           {Cm("rot", <<3, 0>> \o t \o x \o <<0, 0>>) : t \in Angles, x \in Axes})
Next == Len(hist) = 0 /\ Goes(Cmds)

Sum(s) == SumR(LAMBDA k : Abs(s[k]), 1, Len(s))
Law == Done => LET c == Last a == c.a o == out u == P(0) IN
    /\ Only(IF c.op = "rot" THEN {3} ELSE {})
    /\ c.op = "len" => o.v[2] = MulM(TransM(u), u).v[1] /\ o.v[1] = Bool(u.v # ZeroM(par[1], 1).v)
    /\ c.op = "dist" => o.v[1] = Bool(P(0) # P(1)) /\
          o.v[2] = SumR(LAMBDA k : (u.v[k] - P(1).v[k]) * (u.v[k] - P(1).v[k]), 1, par[1])
    \* a unit vector of the same direction, unless zero
    /\ (c.op = "nrm" /\ a[2] # 2) => IF u.v = ZeroM(par[1], 1).v THEN o.v = u.v
          ELSE Sum(o.v) = o.q /\ \A k \in 1..par[1] : Sgn(o.v[k]) = Sgn(u.v[k]) /\
                 \A j \in 1..par[1] : Abs(o.v[k]) * u.v[j] * u.v[j] = Abs(o.v[j]) * u.v[k] * u.v[k]
    \* a unit vector orthogonal to the sides (or zero); right-handed
    /\ c.op = "norm" => LET p == P(a[1]) x == SubM(P(a[2]), p) y == SubM(P(a[3]), p) n == CrossM(x, y) IN
          IF n.v = <<0, 0, 0>> THEN o.v = <<0, 0, 0>>
          ELSE /\ Sum(o.v) = o.q
               /\ DetN(Raw(3, 3, 1, x.v \o y.v \o [k \in 1..3 |-> o.v[k]])) > 0
               /\ \A k \in 1..3 : Sgn(o.v[k]) = Sgn(n.v[k]) /\ Abs(o.v[k]) * DotN(n, n) = n.v[k] * n.v[k] * o.q
    \* length and the component along the axis are kept; the angle
    /\ c.op = "rot" => LET r == R(3) ax == Raw(3, 1, 1, <<a[6], a[7], a[8]>>) n2 == a[9] * a[9]
                          \* parts orthogonal to the axis, times |axis|^2
                          pr(x) == SubM(ScaleM(x, n2, 1), ScaleM(ax, DotN(x, ax), x.q))
                          u1 == pr(u) r1 == pr(r) IN
          /\ DotN(r, r) = DotN(u, u) * r.q * r.q
          /\ DotN(r, ax) = DotN(u, ax) * r.q
          /\ DotN(u1, r1) * a[5] = DotN(u1, u1) * a[3] * r1.q
          /\ DotN(CrossM(u1, r1), ax) * a[5] = DotN(u1, u1) * a[4] * a[9] * r1.q
Emit == Export(Done)
=============================================================================
