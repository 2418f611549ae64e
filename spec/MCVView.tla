------------------------------- MODULE MCVView -----------------------------
(* Views, conversions and access paths of vectors.                         *)
EXTENDS MC

Nums(n, x) == [k \in 1..n |-> x + k]
Pars == {<<3, 2>>, <<4, 3>>, <<2, 1>>, <<4, 2>>, <<4, 4>>, <<5, 3>>}
Init == \E p \in Pars : Begins("vecview", p, LET m == p[1] IN
    {<< <<0, Raw(m, 1, 1, Nums(m, 0))>>, <<1, Raw(m + 1, 1, 1, Nums(m + 1, 10))>>, <<2, Raw(m - 1, 1, 1, Nums(m - 1, 20))>>,
        <<3, Raw(m, 1, 1, Nums(m, 30))>>, <<4, Raw(p[2], 1, 1, Nums(p[2], 40))>> >>})
M_ == par[1]
Off == 0..(M_ - par[2])
Writes == {Cm("wr", <<p, i, 9>>) : p \in 0..7, i \in 0..(M_ - 1)} \cup {Cm("wr", <<p, i, 9>>) : p \in 0..1, i \in {-1, M_}} \cup
    {Cm("fill", <<f, 7>>) : f \in 0..2} \cup {Cm("app", <<f, 8>>) : f \in 0..1} \cup
    {Cm("pre", <<f>> \o Nums(n, 50)) : f \in 0..5, n \in {M_}} \cup {Cm("pre", <<f>> \o Nums(n, 50)) : f \in 2..3, n \in 0..(M_ + 1)} \cup
    {Cm("sput", <<o>>) : o \in Off} \cup {Cm("spok", <<o, i, 9>>) : o \in Off, i \in 0..(par[2] - 1)} \cup
    {Cm("setf", <<s>>) : s \in {1, 2} \cup (IF par[2] # M_ THEN {4} ELSE {})} \cup {Cm("cnv", <<0, 3, f>>) : f \in 0..2} \cup
    {Cm("toh", <<0, 2, f>>) : f \in 0..1} \cup
    (IF M_ = 3 THEN {Cm("name", <<w>>) : w \in 0..10} ELSE {})
Reads == {Cm("rd", <<p, i>>) : p \in (0..7) \cup (10..17), i \in 0..(M_ - 1)} \cup {Cm("rd", <<p, i>>) : p \in {0, 1, 10, 11}, i \in {-1, M_}} \cup
    {Cm("iter", <<r, f>>) : r \in 0..1, f \in 0..1} \cup {Cm("sget", <<o, f>>) : o \in Off, f \in 0..1} \cup
    {Cm("cnv", <<3, 0, f>>) : f \in 0..2} \cup {Cm("toh", <<1, 0, f>>) : f \in 0..1} \cup
    {Cm("size", <<>>)}
Next == \/ Len(hist) = 0 /\ Goes(Writes)
        \/ Len(hist) = 1 /\ Goes(Reads \cup Some(4, 30, Writes))

Ix == 1..M_
Law == Done => LET c == Last a == c.a u == P(0).v n == R(0).v IN
    /\ Only(CASE c \in Writes -> {0} [] c.op = "sget" -> {4} [] c.op \in {"cnv", "toh"} -> {a[1]} [] OTHER -> {})
    /\ out.x = Bool((c.op = "wr" /\ a[2] \notin 0..(M_ - 1)) \/ (c.op = "rd" /\ a[2] \notin 0..(M_ - 1)))
    /\ (c.op = "wr" /\ out.x = 0) => \A k \in Ix : n[k] = IF k = a[2] + 1 THEN a[3] ELSE u[k]
    /\ (c.op = "rd" /\ out.x = 0) => out.v = <<u[a[2] + 1]>>
    /\ c.op = "iter" => \A k \in Ix : out.v[IF a[1] = 0 THEN k ELSE M_ + 1 - k] = u[k]
    /\ c.op = "fill" => \A k \in Ix : n[k] = 7
    /\ c.op = "app" => \A k \in Ix : n[k] = IF k = M_ THEN a[2] ELSE P(2).v[k]
    /\ c.op = "pre" => \A k \in Ix : n[k] = IF k < Len(a) THEN a[k + 1] ELSE u[k]
    /\ c.op = "sget" => \A k \in 1..par[2] : R(4).v[k] = u[a[1] + k]
    /\ c.op = "sput" => \A k \in Ix : n[k] = IF k > a[1] /\ k <= a[1] + par[2] THEN P(4).v[k - a[1]] ELSE u[k]
    /\ c.op = "spok" => \A k \in Ix : n[k] = IF k = a[1] + a[2] + 1 THEN a[3] ELSE u[k]
    /\ c.op = "setf" => LET s == P(a[1]).v IN \A k \in Ix : n[k] = IF k <= Len(s) THEN s[k] ELSE u[k]
    /\ c.op = "cnv" => R(a[1]).v = P(a[2]).v
    \* the homogeneous point is the point
    /\ c.op = "toh" => LET h == R(a[1]).v IN h[Len(h)] = 1 /\ SubSeq(h, 1, Len(h) - 1) = P(a[2]).v
    /\ c.op = "size" => out.v = <<M_>>
    \* opposite directions, the axes
    /\ c.op = "name" => CASE a[1] \in {6, 7} -> Elems(R(0)) = {7 - a[1]}
                          [] OTHER -> Cardinality({k \in Ix : n[k] # 0}) = 1 /\ SumN(R(0)) = IF a[1] \in {0, 3, 4} THEN -1 ELSE 1
Emit == Export(Len(hist) = 2)
=============================================================================
