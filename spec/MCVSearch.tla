------------------------------ MODULE MCVSearch ----------------------------
(* Comparison and search, exhaustively on small vectors.                   *)
EXTENDS MC

Ds(m) == CASE m = 2 -> -2..2 [] m = 3 -> -1..2 [] m = 4 -> -1..1 [] m = 5 -> -1..1
Init == \E m \in 2..5 : Begins("vecsearch", <<m>>,
    {<< <<0, Raw(m, 1, 1, s)>>, <<1, Raw(m, 1, 1, t)>> >> : s \in Some(22, 100, [1..m -> Ds(m)]), t \in Some(12, 40, [1..m -> Ds(m)])} \cup
    {<< <<0, Raw(m, 1, 1, s)>>, <<1, Raw(m, 1, 1, [k \in 1..m |-> IF k = j THEN s[k] + 1 ELSE s[k]])>> >> :
       s \in Some(8, 50, [1..m -> Ds(m)]), j \in 1..m})
Cmds == {Cm("eq", <<0, 1>>), Cm("eq", <<0, 0>>), Cm("lt", <<0, 1>>), Cm("lt", <<1, 1>>), Cm("nnz", <<0>>), Cm("unit", <<0>>)} \cup {Cm("l2", <<0, e>>) : e \in {0, 20}} \cup
        {Cm("find", <<0, w, f>>) : w \in 0..3, f \in 0..1} \cup {Cm("fwr", <<0, w, 9>>) : w \in 0..1} \cup
        {Cm("clmp", <<0, lo, hi, 0>>) : lo \in -2..0, hi \in 0..1} \cup {Cm("near", <<0, 1, t, 0>>) : t \in {2, 4}} \cup
        {Cm("rcp", <<0, f>>) : f \in 0..1} \cup {Cm("pert", <<0, p>>) : p \in 1..1} \cup
        {Cm("scai", <<0, -2, 2, 0>>), Cm("nan", <<0, 1, 0>>), Cm("nan", <<0, 0, par[1] - 1>>)} \cup
        (IF \A k \in 1..par[1] : R(0).v[k] >= 0 THEN {Cm("sqrt", <<0>>)} ELSE {})
Next == Len(hist) = 0 /\ Goes(Cmds)

N_ == par[1]
Ix == 1..N_
\* position in a number system: agrees with the lexicographic order
Code(m) == SumR(LAMBDA k : (m.v[k] + 3) * Pow(10, N_ - k), 1, N_)
F(w, x) == CASE w = 0 -> x [] w = 1 -> -x [] w = 2 -> x * x [] w = 3 -> -(x * x)
Law == Done => LET c == Last a == c.a o == out.v u == P(0) v == P(1) IN
    /\ Only(IF c.op \in {"fwr", "clmp", "rcp", "pert"} THEN {0} ELSE {})
    /\ c.op = "eq" => LET e == Code(P(a[1])) = Code(P(a[2])) IN o = <<Bool(e), Bool(~e), Bool(e), Bool(~e)>>
    /\ c.op = "nan" => o[1] = 0 /\ o[2] = 1 /\ \A i \in 3..5 : o[i] = 0
    /\ c.op = "lt" => o = <<Bool(Code(P(a[1])) < Code(P(a[2]))), Bool(Code(P(a[1])) > Code(P(a[2])))>>
    /\ c.op = "near" => o[1] = Bool(\A k \in Ix : -a[3] < 2 * (u.v[k] - v.v[k]) /\ 2 * (u.v[k] - v.v[k]) < a[3])
    /\ c.op = "find" => LET k == o[1] + 1 IN
          /\ k \in Ix /\ (a[3] = 1 => o[2] = u.v[k])
          /\ \A j \in Ix : F(a[2], u.v[j]) >= F(a[2], u.v[k]) /\ (j < k => F(a[2], u.v[j]) > F(a[2], u.v[k]))
    /\ c.op = "fwr" => \E k \in Ix : /\ R(0).v[k] = a[3] /\ \A j \in Ix \ {k} : R(0).v[j] = u.v[j]
                                     /\ \A j \in Ix : F(a[2], u.v[j]) >= F(a[2], u.v[k])
    /\ c.op = "clmp" => \A k \in Ix : LET x == R(0).v[k] IN
          /\ a[2] <= x /\ x <= a[3] /\ (a[2] <= u.v[k] /\ u.v[k] <= a[3] => x = u.v[k])
          /\ (x > u.v[k] => x = a[2]) /\ (x < u.v[k] => x = a[3])
    /\ c.op = "nnz" => o[1] + Cardinality({k \in Ix : u.v[k] = 0}) = N_
    /\ c.op = "l2" => o = <<Bool(\E k \in Ix : u.v[k] # 0), SumR(LAMBDA k : u.v[k] * u.v[k], 1, N_)>>
    /\ c.op = "unit" => o[1] = Bool(Sgn(SetMin(Elems(u))) >= 0 /\ SumN(u) = 1)
    /\ c.op = "rcp" => \A k \in Ix : IF u.v[k] = 0 THEN (a[2] = 1 => o[k] = 1) ELSE
                                     R(0).v[k] * u.v[k] = R(0).q /\ (a[2] = 1 => o[k] = 0)
    /\ c.op = "pert" => \A k \in Ix : R(0).v[k] # u.v[k] /\ Near1(R(0).v[k], u.v[k], a[2])
    /\ c.op = "sqrt" => o = u.v
    /\ c.op = "scai" => \A k \in Ix : LET n == u.v[k] + 2 x == o[2 * k - 1] * 65536 + o[2 * k] IN
          x = IF n = 4 THEN 2147483647 ELSE n * 536870912 - ((n + 3) \div 4)
Emit == Export(Done /\ (Last.op = "pert" => R(0).v[1] > P(0).v[1]))
=============================================================================
