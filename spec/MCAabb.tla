------------------------------- MODULE MCAabb ------------------------------
(* Boxes as sets of grid points.                                           *)
EXTENDS MC

Lim == 4
Grid == (-Lim..Lim) \X (-Lim..Lim) \X (-Lim..Lim)
Iv == {<<l, h>> \in (-2..2) \X (-2..2) : l <= h + 1}
Boxes(n, m) == {Raw(6, 1, 1, <<x[1], y[1], z[1], x[2], y[2], z[2]>>) : x \in Some(n, m, Iv), y \in Some(n, m, Iv), z \in Some(2, 4, Iv)}
Pts(n, m) == {Raw(3, 1, 1, p) : p \in Some(n, m, [1..3 -> -2..3])}
Init == Begins("aabb", <<3>>,
    {<< <<0, b>>, <<1, d>>, <<3, p>>, <<4, q>>, <<5, Raw(4, 1, 1, p.v \o <<Abs(q.v[1])>>)>> >> :
        b \in Some(14, 80, Boxes(3, 8)) \cup {EmptyBox}, d \in Some(3, 8, Boxes(2, 4)), p \in Pts(4, 8), q \in Pts(1, 4)})
Cmds == {Cm("empty", <<0, f>>) : f \in 0..1} \cup {Cm("unit", <<0>>)} \cup {Cm("cp", <<2, 0, f>>) : f \in 0..1} \cup
    {Cm("box", <<0, 3, 4, f>>) : f \in 0..1} \cup {Cm("smin", <<1, 3, f>>) : f \in 0..1} \cup {Cm("smax", <<1, 3, f>>) : f \in 0..1} \cup
    {Cm("ball", <<0, f>>) : f \in 0..2} \cup {Cm("mgp", <<0, 3>>), Cm("mgp", <<2, 3>>), Cm("mgb", <<0, 1>>), Cm("mgb", <<0, 2>>), Cm("mgb", <<2, 1>>)} \cup
    {Cm("sca", <<2, 1, f, n, 0>>) : f \in 0..3, n \in {-1, 2, 3}} \cup {Cm("sca", <<1, 1, f, n, 1>>) : f \in 0..3, n \in {-2, 3}} \cup
    {Cm("in", <<b, p>>) : b \in 0..1, p \in 3..4} \cup {Cm("in2", <<b, p>>) : b \in 0..1, p \in 3..4} \cup {Cm("ins", <<b>>) : b \in 0..1} \cup
    {Cm("emp", <<b>>) : b \in 0..2} \cup {Cm("ctr", <<1>>), Cm("dim", <<1>>), Cm("eq", <<0, 1>>), Cm("eq", <<0, 0>>), Cm("get", <<1, 0, 3, 0>>), Cm("get", <<1, 1, 3, 0>>)}
Next == \/ Len(hist) = 0 /\ Goes(Some(12, 100, Cmds))
        \/ Len(hist) = 1 /\ Last.op \in {"empty", "ball", "mgp", "mgb", "box"} /\
             Goes({Cm("mgp", <<0, 4>>), Cm("mgb", <<0, 1>>), Cm("mgp", <<2, 4>>), Cm("in", <<0, 3>>), Cm("emp", <<0>>), Cm("eq", <<0, 2>>)})
\* membership, from the definition
Has(b, x) == \A k \in 1..3 : b.v[k] <= x[k] * b.q /\ x[k] * b.q <= b.v[k + 3]
HasBox(b, d) == \A k \in 1..3 : b.v[k] <= d.v[k] /\ d.v[k + 3] <= b.v[k + 3]
\* r is the least box with integer corners that holds b and d
LeastHull(r, lo1, hi1, lo2, hi2) == \A k \in 1..3 :
    /\ r.v[k] <= lo1[k] /\ r.v[k] <= lo2[k] /\ r.v[k] \in {lo1[k], lo2[k]}
    /\ r.v[k + 3] >= hi1[k] /\ r.v[k + 3] >= hi2[k] /\ r.v[k + 3] \in {hi1[k], hi2[k]}
L_(b) == SubSeq(b.v, 1, 3)
H_(b) == SubSeq(b.v, 4, 6)
Law == Done => LET c == Last a == c.a IN
    /\ Only(CASE c.op \in {"in", "in2", "ins", "emp", "eq"} -> {} [] c.op \in {"ctr", "dim"} -> {6} [] c.op = "get" -> {3} [] OTHER -> {a[1]})
    /\ c.op = "empty" => \A x \in Grid : ~Has(R(0), x)
    /\ c.op = "unit" => \A x \in Grid : Has(R(0), x) = (\A k \in 1..3 : x[k] \in 0..1)
    /\ c.op = "cp" => R(2) = P(0)
    /\ c.op = "box" => R(0).v = P(3).v \o P(4).v
    /\ c.op = "smin" => L_(R(1)) = P(3).v /\ H_(R(1)) = H_(P(1))
    /\ c.op = "smax" => H_(R(1)) = P(3).v /\ L_(R(1)) = L_(P(1))
    \* the box around the ball: it touches all the six sides
    /\ c.op = "ball" => LET s == P(5).v IN \A k \in 1..3 : R(0).v[k] + R(0).v[k + 3] = 2 * s[k] /\ R(0).v[k + 3] - R(0).v[k] = 2 * s[4]
    /\ c.op = "mgp" => LeastHull(R(a[1]), L_(P(a[1])), H_(P(a[1])), P(a[2]).v, P(a[2]).v) /\ Has(R(a[1]), P(a[2]).v)
                       /\ \A x \in Grid : Has(P(a[1]), x) => Has(R(a[1]), x)
    /\ c.op = "mgb" => LeastHull(R(a[1]), L_(P(a[1])), H_(P(a[1])), L_(P(a[2])), H_(P(a[2])))
                       /\ \A x \in Grid : Has(P(a[1]), x) \/ Has(P(a[2]), x) => Has(R(a[1]), x)
    /\ c.op = "sca" => \A k \in 1..6 : LET x == R(a[1]).v[k] y == P(a[2]).v[k] * R(a[1]).q n == a[4] * R(a[1]).q IN
          CASE a[3] = 0 -> x = y * a[4] [] a[3] = 1 -> x * a[4] = y [] a[3] = 2 -> x - y = n [] a[3] = 3 -> x + n = y
    /\ c.op = "in" => out.v = <<Bool(Has(P(a[1]), P(a[2]).v))>>
    \* some point of the box above or below
    /\ (c.op = "in2" /\ L_(P(a[1]))[3] <= H_(P(a[1]))[3] /\ a[1] = 1) =>
          out.v = <<Bool(\E z \in -Lim..Lim : Has(P(a[1]), <<P(a[2]).v[1], P(a[2]).v[2], z>>))>>
    \* all the points of the ball, of which the extreme ones decide
    /\ c.op = "ins" => LET s == P(5).v r == s[4] IN
          out.v = <<Bool(\A k \in 1..3 : \A d \in {-r, r} : Has(P(a[1]), [j \in 1..3 |-> IF j = k THEN s[j] + d ELSE s[j]]))>>
    \* no interior: no point strictly inside
    /\ c.op = "emp" => out.v = <<1 - Bool(\A k \in 1..3 : H_(P(a[1]))[k] > L_(P(a[1]))[k])>>
    /\ c.op = "ctr" => \A k \in 1..3 : 2 * R(6).v[k] = (P(1).v[k] + P(1).v[k + 3]) * R(6).q
    /\ c.op = "dim" => \A k \in 1..3 : P(1).v[k] + R(6).v[k] = P(1).v[k + 3]
    /\ c.op = "eq" => out.v[1] = Bool(\A k \in 1..6 : P(a[1]).v[k] = P(a[2]).v[k]) /\ out.v[2] = 1 - out.v[1]
    /\ c.op = "get" => R(3).v = IF a[2] = 0 THEN L_(P(1)) ELSE H_(P(1))
Emit == Export(Done /\ (Len(hist) = 2 \/ Last.op \notin {"empty", "ball", "mgp", "mgb", "box"}))
=============================================================================
