------------------------------ MODULE MCVArith -----------------------------
(* Vector arithmetic: the identities of the vector algebra.                *)
EXTENDS MC

Cyc(k, u) == [i \in 1..k |-> u[((i - 1) % Len(u)) + 1]]
Pars == {<<3, 0>>, <<4, 0>>, <<2, 1>>, <<3, 1>>, <<5, 0>>}
Init == \E p \in Pars : Begins("vecarith", p, LET n == p[1] IN
    {<< <<0, Raw(n, 1, 1, SubSeq(s, 1, n))>>, <<1, Raw(n, 1, 1, SubSeq(t, 1, n))>>, <<2, Raw(n, 1, 1, SubSeq(s \o t, 3, n + 2))>> >> :
       s \in Some(6, 40, [1..5 -> -3..4]), t \in Some(4, 20, [1..5 -> {-3, -2, -1, 1, 2, 5}])})
Fs == 0..3
NoZero(i) == \A k \in 1..R(i).r : R(i).v[k] # 0
Cmds == {Cm("bin", <<f, 3, 0, 1>>) : f \in Fs} \cup {Cm("bin", <<f, 0, 0, 1>>) : f \in Fs} \cup {Cm("bin", <<f, 1, 0, 1>>) : f \in Fs} \cup
        {Cm("bin", <<f, 3, 1, 1>>) : f \in Fs} \cup {Cm("binip", <<f, 0, 1>>) : f \in Fs} \cup
        {Cm("binip", <<f, 1, 1>>) : f \in Fs} \cup
        {Cm("sca", <<f, 3, 0, 0, k>>) : f \in Fs, k \in {-3, 2}} \cup {Cm("sca", <<f, 0, 0, 1, k>>) : f \in Fs, k \in {-2, 7}} \cup
        {Cm("sca", <<2, 1, 0, 2, k>>) : k \in {-1, 0, 3}} \cup
        {Cm("self", <<f, 0, i>>) : f \in 0..2, i \in 0..(par[1] - 1)} \cup
        {Cm("self", <<f, 0, i>>) : f \in 3..3, i \in {k \in 0..(par[1] - 1) : V(R(0), k) # 0}} \cup
        {Cm("neg", <<3, 0, f>>) : f \in {0, 2}} \cup {Cm("neg", <<0, 0, 1>>)} \cup
        (IF par[1] = 3 THEN {Cm("cross", <<d, a, b, f>>) : d \in {0, 3}, a \in 0..1, b \in 1..2, f \in 0..2} ELSE {}) \cup
        {Cm("dot", <<0, b, f>>) : b \in 0..2, f \in 0..1} \cup {Cm("prod", <<a>>) : a \in 0..1} \cup
        {Cm("sql", <<a>>) : a \in 0..1} \cup {Cm("sqd", <<0, b>>) : b \in 0..2} \cup
        {Cm("cp", <<3, 0, f>>) : f \in 0..1} \cup {Cm("swap", <<0, 2>>)}
Next == \/ Len(hist) = 0 /\ Goes(Cmds)
        \/ Len(hist) = 1 /\ NoZero(1) /\ (IsInt => R(1).q = 1 /\ R(0).q = 1) /\ Goes(Some(2, 8, Cmds))

\* what combination r of a and b fulfils
Is(f, r, a, b) ==
    CASE f = 0 -> Same(SubM(r, b), a) [] f = 1 -> Same(AddM(r, b), a)
      [] f = 2 -> Same(MulM(DiagM(b), a), r)
      [] f = 3 -> IF ~IsInt THEN Same(MulM(DiagM(b), r), a)
                  ELSE \A k \in 1..r.r : LET m == a.v[k] - r.v[k] * b.v[k] IN
                         Abs(m) < Abs(b.v[k]) /\ (m = 0 \/ Sgn(m) = Sgn(a.v[k]))
Law == Done => LET c == Last a == c.a n == par[1] IN
    /\ Only(CASE c.op \in {"bin", "binip", "sca", "self"} -> {a[2]} [] c.op = "swap" -> {0, 2}
              [] c.op \in {"neg", "cross", "cp"} -> {a[1]} [] OTHER -> {})
    /\ c.op = "bin" => Is(a[1], R(a[2]), P(a[3]), P(a[4]))
    /\ c.op = "binip" => Is(a[1], R(a[2]), P(a[2]), P(a[3]))
    /\ c.op = "sca" => Is(a[1], R(a[2]), P(a[3]), Const(n, 1, a[5]))
    /\ c.op = "self" => Is(a[1], R(a[2]), P(a[2]), Raw(n, 1, P(a[2]).q, [k \in 1..n |-> V(P(a[2]), a[3])]))
    /\ c.op = "neg" => Same(AddM(R(a[1]), P(a[2])), ZeroM(n, 1))
    \* orthogonal to both factors, of the area as length, antisymmetric
    /\ c.op = "cross" => LET x == P(a[2]) y == P(a[3]) r == R(a[1]) IN
         /\ DotN(r, x) = 0 /\ DotN(r, y) = 0
         /\ DotN(r, r) = DotN(x, x) * DotN(y, y) - DotN(x, y) * DotN(x, y)
         /\ Same(NegM(r), CrossM(y, x))
         /\ DetN(Raw(3, 3, 1, x.v \o y.v \o r.v)) = DotN(r, r)
    /\ c.op = "dot" => /\ out.v[1] = MulM(TransM(P(a[1])), P(a[2])).v[1]
                       \* polarization
                       /\ LET s == AddM(P(a[1]), P(a[2])) d == SubM(P(a[1]), P(a[2])) IN
                          P(a[1]).q = P(a[2]).q => 4 * out.v[1] = DotN(s, s) - DotN(d, d)
    /\ c.op = "prod" => out.v[1] = DetN(DiagM(P(a[1])))
    /\ c.op = "sql" => out.v[1] >= 0 /\ out.v[1] = MulM(TransM(P(a[1])), P(a[1])).v[1]
    /\ c.op = "sqd" => (P(0).q = P(a[2]).q =>
          out.v[1] = DotN(P(0), P(0)) - 2 * DotN(P(0), P(a[2])) + DotN(P(a[2]), P(a[2])))
    /\ c.op = "cp" => R(3) = P(0)
    /\ c.op = "swap" => R(0) = P(2) /\ R(2) = P(0)
Emit == Export(Len(hist) = 2)
=============================================================================
