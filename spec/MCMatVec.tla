------------------------------ MODULE MCMatVec -----------------------------
(* Matrices applied to vectors and points.                                 *)
EXTENDS MC

Cyc(k, u) == [i \in 1..k |-> u[((i - 1) % Len(u)) + 1] + (i \div 5)]
Pars == {<<4, 4>>, <<3, 3>>, <<2, 3>>, <<4, 2>>, <<5, 5>>}
Init == \E p \in Pars : Begins("matvec", p,
    {<< <<0, Raw(p[1], p[2], 1, Cyc(p[1] * p[2], s))>>, <<1, Raw(p[1], p[2], 1, Cyc(p[1] * p[2], t \o s))>>,
        <<2, Raw(p[2], 1, 1, Cyc(p[2], t))>>, <<4, Raw(p[2] - 1, 1, 1, Cyc(p[2] - 1, s))>> >> :
       s \in Some(8, 50, [1..7 -> -3..3]), t \in Some(8, 50, [1..5 -> -2..4])})
Sq == par[1] = par[2]
Finite(m, x) == LET y == MulM(m, Homog(x)) IN V(y, y.r - 1) # 0
Cmds == {Cm("mv", <<d>>) : d \in 0..1} \cup {Cm("cp", <<0, 1>>)} \cup
        (IF par[1] + 1 >= par[2] THEN {Cm("gtr", <<d, s, f>>) : d \in 0..1, s \in 4..5, f \in 0..2} ELSE {}) \cup
        (IF Sq THEN {Cm("mm", <<d, a, b>>) : d \in 0..1, a \in 0..1, b \in 0..1} \cup {Cm("chain", <<a, b>>) : a \in 0..1, b \in 0..1} \cup
                    {Cm("hom", <<d, s, 9 - s>>) : d \in {d \in 0..1 : Finite(R(d), R(4)) /\ Finite(R(d), R(5))}, s \in 4..5} ELSE {})
Next == \/ Len(hist) = 0 /\ Goes(Cmds)
        \/ Len(hist) = 1 /\ Last.op \in {"mv", "mm", "cp"} /\
             Goes({Cm("mv", <<0>>)} \cup (IF Sq THEN {Cm("back", <<>>), Cm("chain", <<0, 1>>)} ELSE {}))
Law == Done => LET c == Last a == c.a IN
    /\ Only(CASE c.op \in {"mv", "chain"} -> {3} [] c.op = "back" -> {2} [] c.op = "hom" -> {a[3]} [] c.op = "gtr" -> {a[2]} [] OTHER -> {a[1]})
    \* a linear combination of the columns
    /\ c.op = "mv" => LET S[k \in 0..par[2]] == IF k = 0 THEN ZeroM(par[1], 1)
                             ELSE AddM(S[k - 1], ScaleM(ColOf(P(a[1]), k - 1), P(2).v[k], P(2).q))
                      IN Same(R(3), S[par[2]])
    \* the same as the product of the matrices
    /\ c.op = "chain" => Same(R(3), MulM(MulM(P(a[1]), P(a[2])), P(2)))
    /\ c.op = "mm" => \A j \in 0..(par[2] - 1) : Same(ColOf(R(a[1]), j), MulM(P(a[2]), ColOf(P(a[3]), j)))
    /\ c.op = "hom" => LET n == par[1] - 1
                           w == SumR(LAMBDA j : E(P(a[1]), n, j) * V(P(a[2]), j), 0, n - 1) + E(P(a[1]), n, n) * P(a[2]).q
                           r == R(a[3])
                       IN \A i \in 0..(n - 1) : V(r, i) * w = r.q *
                             (SumR(LAMBDA j : E(P(a[1]), i, j) * V(P(a[2]), j), 0, n - 1) + E(P(a[1]), i, n) * P(a[2]).q)
    \* the matrix takes the origin there, up to the homogeneous coordinate
    /\ c.op = "gtr" => /\ R(a[2]).r = par[2] - 1
                       /\ Sq => LET y == MulM(P(a[1]), Homog(ZeroM(par[2] - 1, 1))) IN
                                \A i \in 0..(par[2] - 2) : V(R(a[2]), i) * y.q = V(y, i) * R(a[2]).q
    /\ c.op = "cp" => R(0) = P(1)
    /\ c.op = "back" => R(2) = P(3)
Emit == Export(Len(hist) = 2 \/ (Len(hist) = 1 /\ Last.op \in {"chain", "hom", "gtr"}))
=============================================================================
