------------------------------ MODULE MCAffine -----------------------------
(* Affine transforms by what they do to points.                            *)
EXTENDS MC

Axes == {<<1, 0, 0, 1>>, <<0, 1, 0, 1>>, <<0, 0, -1, 1>>, <<0, 3, -4, 5>>, <<1, -2, 2, 3>>}
Angles == {<<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>}
\* an affine, a shearing and a projective matrix
Ms == {IdM(4), Raw(4, 4, 1, <<1, 2, 0, 3, 0, 1, -1, 4, 2, 0, 1, -2, 0, 0, 0, 1>>),
       Raw(4, 4, 1, <<0, -1, 0, 5, 1, 0, 0, 0, 0, 0, 2, 7, 0, 0, 0, 1>>),
       Raw(4, 4, 1, <<1, 2, 3, 4, 5, 6, 7, 8, -1, -2, 4, 1, 0, 1, 0, 3>>)}
Pt1 == Raw(3, 1, 1, <<1, 2, 3>>)
Init == Begins("affine", <<4>>, {<< <<0, m>>, <<1, n>>, <<2, Pt1>>, <<3, Raw(3, 1, 1, <<-1, 0, 4>>)>> >> : m \in Ms, n \in Ms})
Triples == {<<1, 2, -1, 3>>, <<2, 3, 1, -5>>, <<1, 0, 1, 0>>}
First_ == {Cm("rot", <<0>> \o t \o x \o <<f, 0>>) : t \in Angles, x \in Axes, f \in 0..3} \cup
    {Cm("arot", <<0>> \o t \o x \o <<0, 0>>) : t \in Angles, x \in Axes} \cup
    {Cm(o, <<0, x>> \o t \o <<f, 0>>) : o \in {"rax", "pra"}, x \in 0..2, t \in Angles, f \in 0..1} \cup
    {Cm("scl", <<0>> \o t \o <<f>>) : t \in Triples, f \in 0..4} \cup {Cm("sctr", <<0>> \o t \o <<f>>) : t \in Triples, f \in 0..3} \cup
    {Cm("stra", <<0>> \o t \o <<f>>) : t \in Triples, f \in 0..4} \cup {Cm("ctra", <<0>> \o t \o <<f>>) : t \in Triples, f \in 0..1} \cup
    {Cm("cscl", <<0>> \o t \o <<f>>) : t \in Triples, f \in 0..1} \cup {Cm("cscl", <<0, 1, 3, 3, 3, 2>>)} \cup
    {Cm("atra", <<0>> \o t \o <<0>>) : t \in Triples} \cup {Cm("mul", <<0, a, b>>) : a \in 0..1, b \in 0..1} \cup
    {Cm("mulip", <<0, a>>) : a \in 0..1} \cup {Cm("tr", <<1, 0>>), Cm("cp", <<0, 1>>)} \cup {Cm("idn", <<0, f>>) : f \in 0..1} \cup
    {Cm("wxyz", <<0, i, 9>>) : i \in 0..2}
Then_ == {Cm("pt", <<0, 2>>), Cm("gtra", <<0, 3, 0>>)} \cup {Cm("rxyz", <<0, i>>) : i \in 0..2}
OnPoint == Cm("pt", <<0, 2>>)
Finite(m, x) == V(MulM(m, Raw(4, 1, x.q, x.v \o <<x.q>>)), 3) # 0
Next == \/ Len(hist) = 0 /\ Goes(Some(30, 400, First_))
        \/ Len(hist) = 1 /\ Goes({c \in Then_ : c = OnPoint => Finite(R(0), R(2))} \cup Some(1, 8, First_))
        \/ Len(hist) = 2 /\ Last \in First_ /\ Goes({c \in Then_ : c = OnPoint => Finite(R(0), R(2))})

H(x) == Raw(4, 1, x.q, x.v \o <<x.q>>)
\* images, up to a positive or negative factor
Img(m, x) == MulM(m, x)
Points_ == {H(Pt1), H(Raw(3, 1, 1, <<0, 0, 0>>)), H(Raw(3, 1, 1, <<-2, 5, 1>>)), Raw(4, 1, 1, <<1, 0, 0, 0>>), Raw(4, 1, 1, <<0, 3, -1, 0>>)}
Parallel(x, y) == \A i \in 1..3, j \in 1..3 : x.v[i] * y.v[j] = x.v[j] * y.v[i]
\* b is a turned by the angle c / h, s / h about the axis x, y, z of length n
Turned(a, b, t) ==
    LET ax == Raw(3, 1, 1, <<t[4], t[5], t[6]>>) n2 == t[7] * t[7]
        pr(x) == SubM(ScaleM(x, n2, 1), ScaleM(ax, DotN(x, ax), x.q))
        u == pr(a) w == pr(b)
    IN /\ DotN(b, b) * a.q * a.q = DotN(a, a) * b.q * b.q /\ DotN(b, ax) * a.q = DotN(a, ax) * b.q
       /\ DotN(u, w) * t[3] * u.q = DotN(u, u) * t[1] * w.q
       /\ DotN(CrossM(u, w), ax) * t[3] * u.q = DotN(u, u) * t[2] * t[7] * w.q
Axis_(i) == <<Bool(i = 0), Bool(i = 1), Bool(i = 2), 1>>
XYZ(x) == Raw(3, 1, x.q, SubSeq(x.v, 1, 3))
\* the new matrix does f first; before it are the old images
Before(f(_)) == \A x \in Points_ : Same(Img(R(0), x), Img(P(0), f(x)))
Law == Done => LET c == Last a == c.a IN
    /\ Only(CASE c.op = "tr" -> {1} [] c.op = "pt" -> {3} [] c.op = "gtra" -> {3} [] c.op = "rxyz" -> {} [] OTHER -> {0})
    /\ c.op \in {"rot", "arot"} => LET F(x) == IF c.op = "rot" THEN Img(R(0), x) ELSE Img(FullRot(Tail(a)), x) IN
          /\ \A x \in Points_ : Turned(XYZ(x), XYZ(F(x)), Tail(a)) /\ V(F(x), 3) * x.q = V(x, 3) * F(x).q
          /\ c.op = "arot" => Before(F)
    /\ c.op \in {"rax", "pra"} =>
          LET t == IF c.op = "rax" THEN <<a[3], a[4], a[5]>> ELSE <<a[3], -a[4], a[5]>>
              m == AxisRot(a[2], t[1], t[2], t[3]) IN
          /\ \A x \in Points_ : Turned(XYZ(x), XYZ(Img(m, x)), t \o Axis_(a[2])) /\ V(Img(m, x), 3) * x.q = V(x, 3) * Img(m, x).q
          /\ c.op = "rax" => Before(LAMBDA x : Img(m, x))
          /\ c.op = "pra" => \A x \in Points_ : Same(Img(R(0), x), Img(m, Img(P(0), x)))
    /\ c.op \in {"scl", "cscl"} =>
          LET F(x) == Raw(4, 1, x.q * a[2], <<x.v[1] * a[3], x.v[2] * a[4], x.v[3] * a[5], x.v[4] * a[2]>>) IN
          IF c.op = "scl" THEN Before(F) ELSE \A x \in Points_ : Same(Img(R(0), x), F(x))
    /\ c.op \in {"atra", "ctra"} =>
          LET F(x) == Raw(4, 1, x.q * a[2], <<x.v[1] * a[2] + a[3] * x.v[4], x.v[2] * a[2] + a[4] * x.v[4],
                                              x.v[3] * a[2] + a[5] * x.v[4], x.v[4] * a[2]>>) IN
          IF c.op = "atra" THEN Before(F) ELSE \A x \in Points_ : Same(Img(R(0), x), F(x))
    \* directions keep their images, the origin moves to
    /\ c.op \in {"stra", "sctr", "wxyz"} =>
          /\ \A x \in Points_ : V(x, 3) = 0 => Same(Img(R(0), x), Img(P(0), x))
          /\ LET o == Img(R(0), Raw(4, 1, 1, <<0, 0, 0, 1>>)) p == Img(P(0), Raw(4, 1, 1, <<0, 0, 0, 1>>)) IN
             /\ V(o, 3) * p.q = V(p, 3) * o.q
             /\ c.op = "stra" => \A k \in 1..3 : o.v[k] * a[2] = a[k + 2] * o.q
             /\ c.op = "sctr" => \A k \in 1..3 : o.v[k] * a[2] * p.q = a[k + 2] * p.v[k] * o.q
             /\ c.op = "wxyz" => \A k \in 1..3 : IF k = a[2] + 1 THEN o.v[k] = 9 * o.q ELSE o.v[k] * p.q = p.v[k] * o.q
    /\ c.op \in {"mul", "mulip"} => LET A == P(IF c.op = "mul" THEN a[2] ELSE 0) B == P(IF c.op = "mul" THEN a[3] ELSE a[2]) IN
          \A x \in Points_ : Same(Img(R(0), x), Img(A, Img(B, x)))
    /\ c.op = "tr" => \A x \in Points_, y \in Points_ : DotN(Img(R(1), x), y) = DotN(x, Img(P(0), y))
    /\ c.op = "idn" => \A x \in Points_ : Img(R(0), x) = x
    /\ c.op = "pt" => LET i == Img(P(0), H(P(2))) IN \A k \in 1..3 : R(3).v[k] * V(i, 3) = i.v[k] * R(3).q
    /\ c.op = "gtra" => LET o == Img(P(0), Raw(4, 1, 1, <<0, 0, 0, 1>>)) IN Lowest(R(3)) = Lowest(Raw(3, 1, o.q, SubSeq(o.v, 1, 3)))
    /\ c.op = "rxyz" => LET o == Img(P(0), Raw(4, 1, 1, <<0, 0, 0, 1>>)) IN Lowest(Raw(1, 1, out.q, out.v)) = Lowest(Raw(1, 1, o.q, <<o.v[a[2] + 1]>>))
Emit == Export(Done /\ Last \in Then_)
=============================================================================
