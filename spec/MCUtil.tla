------------------------------- MODULE MCUtil -------------------------------
(* Utility functions.                                                      *)
EXTENDS MC

D == -2..2
Init == \E p \in {<<2>>, <<3>>} : Begins("util", p, {<< <<0, Raw(p[1], 1, q, x)>>, <<1, Raw(p[1], 1, 1, y)>>, <<4, u>>, <<5, w>> >> :
    x \in Some(8, 60, [1..p[1] -> D]), y \in Some(8, 60, [1..p[1] -> D]), q \in {1, 2},
    u \in Some(2, 5, VecsOver(3, D)), w \in Some(1, 3, VecsOver(3, D))})
N == {-7, -1, 0, 1, 7, 8}
Pure_ == {Cm(o, <<x, y>>) : o \in {"sign", "absc"}, x \in N, y \in N} \cup {Cm("sq", <<x>>) : x \in N} \cup
    {Cm("eqi", <<x, y, f>>) : x \in N, y \in N, f \in 0..2} \cup {Cm("eqf", <<x, k>>) : x \in {-3, 0, 2}, k \in -5..5} \cup
    {Cm("pyth", <<s * t[1], t[2], e>>) : t \in {<<3, 4>>, <<15, 8>>, <<0, 2>>, <<5, 0>>, <<20, 21>>}, s \in {-1, 1}, e \in {-900, 0, 7, 900}} \cup
    {Cm("type", <<i>>) : i \in 0..22}
Regs_ == {Cm("ext", <<a, b, f>>) : a \in 0..1, b \in 0..1, f \in 0..1} \cup {Cm("manh", <<i>>) : i \in 0..1} \cup
    {Cm("zero", <<0>>), Cm("tens", <<>>), Cm("osg", <<5, 1, -2, 3>>)}
Next == Len(hist) = 0 /\ Goes(Some(12, 60, Regs_) \cup Some(3, 40, Pure_))
Law == Done => LET c == Last a == c.a IN
    /\ Only(CASE c.op = "ext" -> {2} [] c.op = "zero" -> {0} [] c.op = "tens" -> {3} [] c.op = "osg" -> {5} [] OTHER -> {})
    /\ c.op = "ext" => LET s == IF a[3] = 0 THEN -1 ELSE 1 x == Over(P(a[1]), 2) y == Over(P(a[2]), 2) z == Over(R(2), 2) IN
          \A k \in 1..par[1] : s * z.v[k] >= s * x.v[k] /\ s * z.v[k] >= s * y.v[k] /\ z.v[k] \in {x.v[k], y.v[k]}
    \* the least bound of the signed sums
    /\ c.op = "manh" => LET Sums == {SumR(LAMBDA k : sg[k + 1] * V(P(a[1]), k), 0, par[1] - 1) : sg \in [1..par[1] -> {-1, 1}]} IN out.v[1] = SetMax(Sums)
    /\ c.op = "tens" => MulM(R(3), Raw(4, 1, 1, <<1, 2, 3, 4>>)) =
          LET h == Raw(4, 1, 1, P(4).v \o <<1>>) g == Raw(4, 1, 1, P(5).v \o <<1>>) IN ScaleM(h, DotN(g, Raw(4, 1, 1, <<1, 2, 3, 4>>)), 1)
    /\ c.op = "sign" => out.v[1] * out.v[1] = a[1] * a[1] /\ out.v[1] * Sgn(a[2]) >= 0 /\ (a[2] = 0 => out.v[1] >= 0)
    /\ c.op = "absc" => out.v[1] = Bool(a[1] * a[1] < a[2] * a[2]) /\ out.v[2] = Bool(a[1] * a[1] > a[2] * a[2])
    /\ c.op = "pyth" => out.v[1] >= 0 /\ out.v[1] * out.v[1] = a[1] * a[1] + a[2] * a[2]
Emit == Export(Done)
=============================================================================
