------------------------------- MODULE MCProd ------------------------------
(* Structured products by their characteristic identities.                 *)
EXTENDS MC

Start(p, s, t) == LET m == p[1] n == p[2] a == p[3] b == p[4]
                      Cyc(k, u) == [i \in 1..k |-> u[((i - 1) % Len(u)) + 1] + (IF i > Len(u) THEN 1 ELSE 0)]
                  IN << <<0, Raw(m, n, 1, Cyc(m * n, s))>>, <<1, Raw(a, b, 1, Cyc(a * b, t))>>,
                        <<3, Raw(a, n, 1, Cyc(a * n, t \o s))>>, <<6, Raw(m, 1, 1, Cyc(m, t))>>, <<7, Raw(n, 1, 1, Cyc(n, s))>> >>
Pars == {<<3, 3, 2, 2>>, <<2, 4, 3, 2>>, <<4, 2, 1, 3>>, <<3, 5, 2, 3>>, <<4, 4, 3, 3>>}
Init == \E p \in Pars : Begins("matprod", p, LET S == Some(6, 30, [1..8 -> -3..3]) T == Some(6, 30, [1..7 -> -2..4]) IN
                                             {Start(p, s, t) : s \in S, t \in T})
Cmds == {Cm(o, <<>>) : o \in {"kron", "khat", "dsum", "tens", "cov", "conv", "srws", "scls", "csum"}}
Next == \/ Len(hist) = 0 /\ Goes(Cmds)
        \/ Len(hist) = 1 /\ Last.op \in {"tens", "conv"} /\ Goes(Cmds)

Vecs(n) == {Mk(n, 1, 1, LAMBDA i, j : Bool(i = k)) : k \in 0..(n - 1)} \cup {Mk(n, 1, 1, LAMBDA i, j : 2 - i * i)}
Stack(u, v) == Raw(u.r + v.r, 1, 1, u.v \o v.v)
\* x moved so that (p, q) of the kernel comes over the centre, with the border extended
Moved(x, k, p, q) == Mk(x.r, x.c, 1, LAMBDA i, j :
    LET y == i + p - (k.r \div 2) z == j + q - (k.c \div 2)
    IN E(x, SetMax({0, SetMin({y, x.r - 1})}), SetMax({0, SetMin({z, x.c - 1})})))
RECURSIVE Combine(_, _, _)
Combine(x, k, n) == IF n = 0 THEN ZeroM(x.r, x.c)
    ELSE AddM(Combine(x, k, n - 1), ScaleM(Moved(x, k, (n - 1) \div k.c, (n - 1) % k.c), k.v[n], 1))
Law == Done => LET c == Last X == P(0) G == P(1) IN
    /\ out = Void
    /\ c.op = "kron" => /\ Only({2})
                        /\ \A u \in Vecs(X.c), v \in Vecs(G.c) : Same(MulM(R(2), KronM(u, v)), KronM(MulM(X, u), MulM(G, v)))
    /\ c.op = "khat" => /\ Only({4})
                        /\ \A j \in 0..(X.c - 1) : Same(ColOf(R(4), j), KronM(ColOf(X, j), ColOf(P(3), j)))
    /\ c.op = "dsum" => /\ Only({5})
                        /\ \A u \in Vecs(X.c), v \in Vecs(G.c) : Same(MulM(R(5), Stack(u, v)), Stack(MulM(X, u), MulM(G, v)))
    /\ c.op = "tens" => Only({0}) /\ \A v \in Vecs(X.c) : Same(MulM(R(0), v), ScaleM(P(6), DotN(P(7), v), 1))
    /\ c.op = "cov"  => /\ Only({8}) /\ Same(TransM(R(8)), R(8))
                        /\ \A u \in Vecs(X.r) : DotN(u, MulM(R(8), u)) = DotN(MulM(TransM(X), u), MulM(TransM(X), u))
    /\ c.op = "conv" => Only({0}) /\ Same(R(0), Combine(X, G, Size(G)))
    /\ c.op = "srws" => Only({9}) /\ (X.r % 2 = 0 => SumN(R(9)) = SumN(X)) /\
                        \A i \in 0..((X.r \div 2) - 1), j \in 0..(X.c - 1) : E(R(9), i, j) - E(X, 2 * i, j) = E(X, 2 * i + 1, j)
    /\ c.op = "scls" => Only({10}) /\ (X.c % 2 = 0 => SumN(R(10)) = SumN(X)) /\
                        \A i \in 0..(X.r - 1), j \in 0..((X.c \div 2) - 1) : E(R(10), i, j) - E(X, i, 2 * j) = E(X, i, 2 * j + 1)
    /\ c.op = "csum" => Only({7}) /\ Same(AsRow(R(7)), MulM(Const(1, X.r, 1), X))
Emit == Export(Len(hist) = 2 \/ (Len(hist) = 1 /\ Last.op \notin {"tens", "conv"}))
=============================================================================
