----------------------------- MODULE MCFrustum -----------------------------
(* Frusta: the projection takes the corners of the pyramid (of the box) to *)
(* the corners of the cube.                                                *)
EXTENDS MC

Six == {<<l, l + w, b, b + h, n, n + d>> : l \in -3..1, w \in {1, 2, 4, -2}, b \in -2..1, h \in {1, 3}, n \in {1, 2}, d \in {1, 3, 6}}
Init == Begins("frustum", <<4>>, {<< <<0, Raw(6, 1, q, s)>>, <<1, Raw(6, 1, 1, <<-1, 1, -2, 2, 1, 3>>)>> >> : s \in Some(60, 600, Six), q \in {1, 2}})
Cmds == {Cm("mat", <<0, f>>) : f \in 0..1} \cup {Cm("orth", <<0, f>>) : f \in 0..1} \cup
    {Cm("adj", <<0, n, q>>) : n \in {1, 3}, q \in {1, 2}} \cup {Cm("jit", <<0, x, y, q>>) : x \in {-1, 2}, y \in {0, 3}, q \in {1, 4}} \cup
    {Cm("persp", <<0, t[1], t[2], t[3], t[4], n, n + 4>>) : t \in {<<1, 1, 1, 1>>, <<1, 2, 4, 3>>, <<2, 1, 1, 2>>}, n \in {1, 3}} \cup
    {Cm("wh", <<0>>), Cm("dflt", <<0>>), Cm("none", <<0>>), Cm("cp", <<1, 0, 0>>), Cm("cp", <<0, 1, 1>>)} \cup
    {Cm("rd", <<0, i>>) : i \in 0..5} \cup {Cm("wr", <<0, i, 9>>) : i \in 0..5} \cup
    {Cm("set", <<0, f, 2, -3, 4, -1, 2, 1, 6>>) : f \in 0..5}
Next == \/ Len(hist) = 0 /\ Goes(Some(20, 100, Cmds))
        \/ Len(hist) = 1 /\ Last.op \in {"adj", "jit", "set", "persp", "dflt"} /\ Goes((IF Dx(R(0)) = 0 \/ Dy(R(0)) = 0 \/ Dz(R(0)) = 0 THEN {} ELSE {Cm("mat", <<0, 0>>), Cm("orth", <<0, 0>>)}) \cup {Cm("wh", <<0>>)})
Sides == {-1, 1} \X {-1, 1} \X {-1, 1}
\* the corner of side s: x, y on the near plane, stretched to the far plane
Pick(f, k, s) == f.v[2 * k - 1 + (IF s = 1 THEN 1 ELSE 0)]
\* corner of the pyramid, times f.q * near
PCorner(f, s) == LET z == Pick(f, 3, s[3]) IN
    Raw(4, 1, 1, <<Pick(f, 1, s[1]) * z, Pick(f, 2, s[2]) * z, -z * f.v[5], f.q * f.v[5]>>)
BCorner(f, s) == Raw(4, 1, 1, <<Pick(f, 1, s[1]), Pick(f, 2, s[2]), -Pick(f, 3, s[3]), f.q>>)
\* homogeneous x is the corner s of the cube
IsCube(x, s) == x.v[4] # 0 /\ \A k \in 1..3 : x.v[k] = s[k] * x.v[4]
\* slopes of the sides
Slope(f, k) == <<f.v[k], f.v[5]>>
Law == Done => LET c == Last a == c.a f == P(0) IN
    /\ Only(CASE c.op \in {"mat", "orth"} -> {2} [] c.op \in {"rd", "wh"} -> {} [] OTHER -> {a[1]})
    /\ c.op = "mat" => \A s \in Sides : IsCube(MulM(R(2), PCorner(f, s)), s)
    /\ c.op = "orth" => \A s \in Sides : IsCube(MulM(R(2), BCorner(f, s)), s) /\ MulM(R(2), BCorner(f, s)).v[4] = R(2).q * f.q
    \* the sides keep their slopes, the far plane its place
    /\ c.op = "adj" => LET g == R(0) IN
          /\ g.v[5] * a[3] = a[2] * g.q /\ g.v[6] * f.q = f.v[6] * g.q
          /\ \A k \in 1..4 : g.v[k] * f.v[5] = f.v[k] * g.v[5]
    /\ c.op = "jit" => \A k \in 1..6 : (R(0).v[k] * f.q - f.v[k] * R(0).q) * a[4] =
                                 (IF k \in 1..2 THEN a[2] ELSE IF k \in 3..4 THEN a[3] ELSE 0) * f.q * R(0).q
    \* symmetric, of the aspect ratio, and the tangent of half the field of view
    /\ c.op = "persp" => LET g == R(0).v IN
          /\ g[1] = -g[2] /\ g[3] = -g[4] /\ (g[2] - g[1]) * a[5] = (g[4] - g[3]) * a[4] /\ g[4] * a[3] = a[2] * g[5]
          /\ g[5] = a[6] * R(0).q /\ g[6] = a[7] * R(0).q
    /\ c.op = "wh" => out.v[1] >= 0 /\ out.v[2] >= 0 /\ \A k \in 1..2 : out.v[k] \in {f.v[2 * k] - f.v[2 * k - 1], f.v[2 * k - 1] - f.v[2 * k]}
    /\ c.op = "rd" => out.v[1] = f.v[a[2] + 1] /\ out.q = f.q
    /\ c.op = "wr" => \A k \in 1..6 : R(0).v[k] = IF k = a[2] + 1 THEN 9 * f.q ELSE f.v[k]
    /\ c.op = "set" => R(0) = Raw(6, 1, 2, <<-3, 4, -1, 2, 1, 6>>)
    /\ c.op = "cp" => R(a[1]) = P(a[2])
    /\ c.op = "none" => Elems(R(0)) = {0}
Emit == Export(Done /\ (Len(hist) = 2 \/ Last.op \notin {"adj", "jit", "set", "persp", "dflt"}))
=============================================================================
