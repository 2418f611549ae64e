------------------------------- MODULE MCQuat ------------------------------
(* Quaternions: mode "alg" the algebra, "conv" rotation matrices, "interp" *)
(* rotations and interpolation.                                            *)
EXTENDS MC

Q4 == [1..4 -> -1..2]
Rnd(n, m) == {Raw(4, 1, 1, s) : s \in Some(n, m, Q4)}
\* integer quaternions of integer length, with it
Sq_ == [n \in 1..5 |-> n * n]
SomeUnits == {x \in [1..4 -> -3..4] : LET d == x[1] * x[1] + x[2] * x[2] + x[3] * x[3] + x[4] * x[4] IN
                                   d = 1 \/ d = 4 \/ d = 9 \/ d = 16 \/ d = 25}
Units_ == {<<x, Sqrt(x[1] * x[1] + x[2] * x[2] + x[3] * x[3] + x[4] * x[4])>> : x \in SomeUnits}
V3(n, m) == {Raw(3, 1, 1, s) : s \in Some(n, m, [1..3 -> -2..3])}
Init == Begins("quat", <<4>>,
    CASE Mode = "alg" -> {<< <<0, p>>, <<1, q>>, <<2, r>>, <<3, v>> >> : p \in Rnd(5, 20), q \in Rnd(4, 12), r \in Rnd(2, 6), v \in V3(2, 4)}
      [] Mode = "conv" -> {<< <<0, Raw(4, 1, u[2], u[1])>>, <<1, Raw(4, 1, w[2], w[1])>>, <<3, v>> >> :
                              u \in Some(40, 700, Units_), w \in Some(2, 4, Units_), v \in V3(1, 3)}
      [] Mode = "interp" -> {<< <<0, p>>, <<1, q>>, <<3, v>>, <<4, Raw(3, 1, 1, <<1, -2, 4>>)>> >> :
                              p \in Rnd(3, 12), q \in Rnd(3, 12), v \in V3(3, 8)})
Axes == {<<1, 0, 0, 1>>, <<0, 0, -1, 1>>, <<0, 3, -4, 5>>, <<1, -2, 2, 3>>}
Angles == {<<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>}
Alg == {Cm(o, <<2, a, b>>) : o \in {"add", "sub", "mul"}, a \in 0..1, b \in 0..1} \cup
    {Cm(o, <<0, a, b>>) : o \in {"mul"}, a \in 0..1, b \in 0..2} \cup
    {Cm(o, <<0, b>>) : o \in {"addip", "subip", "mulip"}, b \in 0..1} \cup
    {Cm(o, <<2, 0, k, 0>>) : o \in {"muls", "divs"}, k \in {-2, 0, 3}} \cup {Cm(o, <<0, 0, k, 1>>) : o \in {"muls", "divs"}, k \in {-2, 0, 3}} \cup
    {Cm("neg", <<2, 0, f>>) : f \in 0..1} \cup {Cm("conj", <<2, 0, 0>>), Cm("conj", <<0, 0, 1>>)} \cup
    (IF R(0).v # <<0, 0, 0, 0>> THEN {Cm("inv", <<2, 0>>)} ELSE {}) \cup
    {Cm(o, <<2, 0, 3, 0>>) : o \in {"addv", "subv", "mulv"}} \cup {Cm(o, <<0, 0, 3, 1>>) : o \in {"addv", "subv", "mulv"}} \cup
    {Cm("fromv", <<2, 3, 0, 2>>), Cm("fromv", <<2, 3, 5, 0>>), Cm("fromv", <<2, 3, 5, 1>>), Cm("cross", <<4, 0, 1>>),
     Cm("sqabs", <<0>>), Cm("abs", <<0>>), Cm("eq", <<0, 1>>), Cm("eq", <<0, 0>>), Cm("eqs", <<0, 1>>),
     Cm("find", <<0, 0>>), Cm("find", <<0, 1>>), Cm("zero", <<0>>)} \cup
    {Cm("near", <<0, 1, t, 0>>) : t \in 1..2} \cup {Cm("dot", <<0, 1, f>>) : f \in 0..1} \cup {Cm("named", <<0, i, f, 0>>) : i \in 1..4, f \in 0..1} \cup
    {Cm("set", <<0, f, 1, -2, 3, 4>>) : f \in 0..10}
Conv == {Cm("tom", <<m, q, f>>) : m \in 5..6, q \in 0..1, f \in 0..1}
Interp == {Cm("norm", <<q, f>>) : q \in 0..1, f \in 0..1} \cup
    {Cm("rot", <<2, 3>> \o t \o x \o <<0, 0>>) : t \in Angles, x \in Axes} \cup
    {Cm("rax", <<2, 3, x>> \o t \o <<0>>) : t \in Angles, x \in 0..2} \cup
    {Cm("slend", <<0, 1, e>>) : e \in {e \in 0..1 : DotN(R(0), R(1)) # 0 /\ R(0).v # <<0, 0, 0, 0>> /\ R(1).v # <<0, 0, 0, 0>>}} \cup
    {Cm("slrp", <<2>> \o p[1] \o <<p[2]>> \o r[1] \o <<r[2], j, m, 1, 1>>) :
        p \in Some(2, 6, Units_), r \in {x \in Some(12, 60, Units_) : x[1][4] > 0}, m \in 1..3, j \in 0..3} \cup
    {Cm("slin", <<2>> \o p[1] \o <<p[2]>> \o r[1] \o <<r[2], j, m, 1, 4, 1, 1>>) :
        p \in Some(2, 10, Units_), r \in Some(2, 30, Units_), m \in 2..3, j \in 0..2}
\* slerp and its linear form: argument positions, see SpecAffine
\* the whole arc is below 90 degrees
Ok(c) == c.op = "slrp" => /\ c.a[12] <= c.a[13]
                          /\ \A i \in 1..c.a[13] : V(QPow(Raw(4, 1, 1, SubSeq(c.a, 7, 10)), i), 3) > 0
Next == \/ Len(hist) = 0 /\ Goes(CASE Mode = "alg" -> Alg [] Mode = "conv" -> Conv [] OTHER -> {c \in Interp : Ok(c)})
        \/ Len(hist) = 1 /\ Mode = "alg" /\ Goes(Some(1, 6, Alg))
        \/ Len(hist) = 1 /\ Mode = "conv" /\
             Goes({Cm("frm", <<Last.a[1], f>>) : f \in 0..1} \cup (IF Last.a[1] = 5 THEN {Cm("mv", <<4, 3>>)} ELSE {}))

Nn(x) == DotN(x, x)
\* p q as a linear map: the product of the 4x4 matrices of the left factors
LeftM(p) == LET x == V(p,0) y == V(p,1) z == V(p,2) w == V(p,3) IN
    Raw(4, 4, p.q, <<w, -z, y, x,  z, w, -x, y,  -y, x, w, z,  -x, -y, -z, w>>)
\* the rotated vector: q v q* / |q|^2
Sandwich(q, v) == QMul(QMul(q, Pure(v)), QConj(q))
Turned(a, b, t) ==
    LET ax == Raw(3, 1, 1, <<t[4], t[5], t[6]>>) n2 == t[7] * t[7]
        pr(x) == SubM(ScaleM(x, n2, 1), ScaleM(ax, DotN(x, ax), x.q))
        u == pr(a) w == pr(b)
    IN /\ DotN(b, b) * a.q * a.q = DotN(a, a) * b.q * b.q /\ DotN(b, ax) * a.q = DotN(a, ax) * b.q
       /\ DotN(u, w) * t[3] * u.q = DotN(u, u) * t[1] * w.q
       /\ DotN(CrossM(u, w), ax) * t[3] * u.q = DotN(u, u) * t[2] * t[7] * w.q
Law == Done => LET c == Last a == c.a p == P(0) q == P(1) IN
    /\ Only(CASE c.op \in {"dot", "sqabs", "abs", "norm", "eq", "eqs", "near", "find", "frm", "slend", "slin"} -> {}
              [] c.op = "rot" -> {a[1], 4} [] OTHER -> {a[1]})
    /\ c.op = "add" => Same(SubM(R(a[1]), P(a[3])), P(a[2]))
    /\ c.op = "sub" => Same(AddM(R(a[1]), P(a[3])), P(a[2]))
    /\ c.op \in {"mul", "mulip"} => LET x == P(IF c.op = "mul" THEN a[2] ELSE a[1]) y == P(IF c.op = "mul" THEN a[3] ELSE a[2])
                                        r == R(a[1]) IN
         /\ Same(r, MulM(LeftM(x), y))
         /\ Nn(r) = Nn(x) * Nn(y)
         /\ Same(QConj(r), QMul(QConj(y), QConj(x)))
         /\ Same(QMul(r, P(2)), QMul(x, QMul(y, P(2))))
    /\ c.op = "addip" => Same(SubM(R(0), P(a[2])), P(0))
    /\ c.op = "subip" => Same(AddM(R(0), P(a[2])), P(0))
    /\ c.op = "muls" => Same(R(a[1]), QMul(P(a[2]), Raw(4, 1, 1, <<0, 0, 0, a[3]>>)))
    /\ c.op = "divs" => IF a[3] = 0 THEN out.x = 1 /\ regs = pre ELSE Same(QMul(Raw(4, 1, 1, <<0, 0, 0, a[3]>>), R(a[1])), P(a[2]))
    /\ c.op = "neg" => Same(AddM(R(a[1]), P(a[2])), ZeroM(4, 1))
    /\ c.op = "conj" => LET x == P(a[2]) IN
          /\ Same(QMul(x, R(a[1])), Raw(4, 1, 1, <<0, 0, 0, Nn(x)>>)) \/ x.q # 1
          /\ Same(QMul(QMul(LET i(k) == Raw(4, 1, 1, [j \in 1..4 |-> Bool(j = k)]) IN i(1), x), Raw(4, 1, 1, <<1, 0, 0, 0>>)),
                  Raw(4, 1, x.q, <<-x.v[1], x.v[2], x.v[3], -x.v[4]>>))
    /\ c.op = "inv" => LET one == Raw(4, 1, 1, <<0, 0, 0, 1>>) IN Same(QMul(p, R(2)), one) /\ Same(QMul(R(2), p), one)
    /\ c.op = "addv" => Same(SubM(R(a[1]), p), Pure(P(3))) /\ (p.q = 1 => R(a[1]).v[4] = p.v[4])
    /\ c.op = "subv" => Same(AddM(R(a[1]), Pure(P(3))), p)
    /\ c.op = "mulv" => Same(R(a[1]), MulM(LeftM(p), Pure(P(3))))
    /\ c.op = "fromv" => SubSeq(R(2).v, 1, 3) = P(3).v /\ R(2).v[4] = a[3]
    \* half the commutator
    /\ c.op = "cross" => Same(ScaleM(Pure(R(4)), 2, 1), SubM(QMul(Raw(4, 1, p.q, SubSeq(p.v, 1, 3) \o <<0>>), Raw(4, 1, q.q, SubSeq(q.v, 1, 3) \o <<0>>)),
                                                       QMul(Raw(4, 1, q.q, SubSeq(q.v, 1, 3) \o <<0>>), Raw(4, 1, p.q, SubSeq(p.v, 1, 3) \o <<0>>))))
    /\ c.op = "dot" => out.v[1] = V(QMul(P(a[1]), QConj(P(a[2]))), 3)
    /\ c.op = "sqabs" => out.v[1] = V(QMul(p, QConj(p)), 3)
    /\ c.op = "abs" => out.v[2] = Nn(p) /\ (out.v[1] = 0) = (Nn(p) = 0)
    /\ c.op = "eq" => out.v[1] = Bool(Nn(SubM(P(a[1]), P(a[2]))) = 0) /\ out.v[2] = 1 - out.v[1]
    /\ c.op = "eqs" => out.v[1] = Bool(Nn(SubM(p, Raw(4, 1, 1, <<0, 0, 0, a[2]>>))) = 0)
    /\ (c.op = "near" /\ p.q = 1 /\ q.q = 1) => out.v[1] = Bool(\A k \in 1..4 : 2 * (p.v[k] - q.v[k]) <= a[3] /\ 2 * (q.v[k] - p.v[k]) <= a[3])
    /\ c.op = "find" => LET s == IF a[2] = 0 THEN 1 ELSE -1 IN
          \A k \in 1..4 : s * p.v[k] >= s * out.v[2] /\ ((k - 1) * p.q < out.v[1] => p.v[k] # out.v[2])
    /\ c.op = "named" => Nn(R(0)) = 1 /\ R(0).v[a[2]] = 1
    /\ c.op = "set" => R(0).v = <<1, -2, 3, 4>>
    \* the matrix does to vectors what the quaternion does
    /\ c.op = "tom" => LET u == P(a[2]) m == SubMat(R(a[1]), 3, 3, 0, 0) IN
          /\ \A v \in {P(3), Raw(3, 1, 1, <<1, 0, 0>>), Raw(3, 1, 1, <<0, 1, 0>>), Raw(3, 1, 1, <<0, 0, 1>>)} :
                Same(Pure(MulM(m, v)), Sandwich(u, v))
          /\ a[1] = 6 => \A i \in 0..3, j \in 0..3 : (i > 2 \/ j > 2) => E(R(6), i, j) * P(6).q = E(P(6), i, j) * R(6).q
          /\ Nn(u) = u.q * u.q => Same(MulM(m, TransM(m)), IdM(3)) /\ DetN(m) = m.q * m.q * m.q
          \* a homomorphism
          /\ Same(QRot(QMul(P(0), P(1))), MulM(QRot(P(0)), QRot(P(1))))
    \* the unit quaternion comes back, up to its sign
    /\ c.op = "frm" => LET u == P(hist[1].a[2])
                           w == <<u.v[1], u.v[2], u.v[3], u.v[4]>>
                           pr == <<w[1]*w[1], w[1]*w[2], w[1]*w[3], w[1]*w[4], w[2]*w[2], w[2]*w[3], w[2]*w[4], w[3]*w[3], w[3]*w[4], w[4]*w[4]>>
                       IN \A k \in 1..10 : out.v[k] * u.q * u.q = pr[k] * out.q
    /\ c.op = "mv" => Same(Pure(R(4)), Sandwich(P(hist[1].a[2]), P(3)))
    /\ c.op = "norm" => (Nn(P(a[1])) # 0 => SumR(LAMBDA k : Abs(out.v[k]), 1, 4) = out.q)
    /\ c.op = "rot" => Turned(P(3), Axis(R(2)), SubSeq(a, 3, 9)) /\ V(R(2), 3) = 0 /\ DotN(R(4), R(4)) = R(4).q * R(4).q
    /\ c.op = "rax" => Turned(P(3), Axis(R(2)), <<a[4], a[5], a[6], Bool(a[3] = 0), Bool(a[3] = 1), Bool(a[3] = 2), 1>>)
    \* a unit; the rest of the way is the rest of the rotation; from p to p r^m
    /\ c.op = "slrp" => LET x == R(2) u == Raw(4, 1, a[6], SubSeq(a, 2, 5)) r == Raw(4, 1, a[11], SubSeq(a, 7, 10)) IN
          /\ DotN(x, x) = x.q * x.q
          /\ a[12] = 0 => Same(x, u)
          /\ Same(QMul(x, QPow(r, a[13] - a[12])), QMul(u, QPow(r, a[13])))
          /\ V(QMul(QConj(u), x), 3) > 0
    /\ c.op = "slin" => /\ SumR(LAMBDA k : Abs(out.v[k]), 1, 4) \in {0, out.q}
                        /\ a[12] = 0 => \A k \in 1..4 : out.v[k] * a[6] * a[6] = Sgn(a[k + 1]) * a[k + 1] * a[k + 1] * out.q
    /\ c.op = "slend" => SumR(LAMBDA k : Abs(out.v[k]), 1, 4) = out.q /\
          SumR(LAMBDA k : Sgn(out.v[k]) * out.v[k], 1, 4) > 0 /\
          LET s(k) == Sgn(out.v[k]) * p.v[k] IN (a[3] = 0 => \A k \in 1..4 : s(k) >= 0)
Emit == Export(CASE Mode = "interp" -> Done [] OTHER -> Len(hist) = 2)
=============================================================================
