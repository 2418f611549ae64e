------------------------------ MODULE MCSquare -----------------------------
(* Determinants, minors, cofactors, adjugates (mode "det") and inverses    *)
(* (mode "inv") against the Leibniz formula and A adj(A) = det(A) I.       *)
EXTENDS MC

Twos == IF Mode = "inv" THEN [1..4 -> -2..2] ELSE [1..4 -> -2..3]
Mats(m) == CASE m = 2 -> {Raw(2, 2, 1, s) : s \in Some(120, 1296, Twos)}
             [] m = 3 -> SomeMats(3, 3, -2..3, 150, 3000)
             [] m = 4 -> SomeMats(4, 4, {-1, 0, 2}, 60, 1200)
             [] m = 5 -> SomeMats(5, 3, {-1, 0, 1}, 12, 150)
\* 5x5: the last columns are combinations of the others plus units
Five(s) == Mk(5, 5, 1, LAMBDA i, j : IF j < 3 THEN E(s, i, j) ELSE E(s, i, j - 3) - E(s, 4 - i, 1) + Bool(i = j))
Start(m) == {IF m = 5 THEN Five(s) ELSE s : s \in Mats(m)}
Symmetric(s) == Mk(s.r, s.r, 1, LAMBDA i, j : IF i <= j THEN E(s, i, j) ELSE E(s, j, i))
Init == \E m \in (2..4) \cup (IF Mode = "det" THEN {5} ELSE {}) :
    Begins("matsquare", <<m>>, {<< <<0, s>>, <<1, Fresh(m, m)>>, <<3, ColOf(s, 0)>> >> : s \in Start(m)} \cup
              (IF Mode = "inv" THEN {<< <<0, Symmetric(s)>> >> : s \in Start(m)} ELSE {}))
M_ == par[1]
Ix == 0..(M_ - 1)
Cmds == IF Mode = "det" THEN
      {Cm("det", <<0, f>>) : f \in 0..1} \cup {Cm("cof", <<1, 0>>), Cm("adj", <<1, 0>>), Cm("scov", <<1, 0>>), Cm("diag", <<1>>)} \cup
      {Cm("minor", <<0, i, j>>) : i \in -1..M_, j \in -1..M_} \cup {Cm("ident", <<0, f>>) : f \in 0..2}
   ELSE {Cm("inv", <<1, 0, t, f>>) : t \in {-1, 0, 1, 3}, f \in 0..1} \cup {Cm("posd", <<0, f>>) : f \in 0..1}
Next == Len(hist) = 0 /\ Goes(Some(12, 100, Cmds))

Perms(n) == {p \in [1..n -> 1..n] : Cardinality({p[i] : i \in 1..n}) = n}
Perm == [n \in 1..5 |-> Perms(n)]
Parity(p) == IF Cardinality({x \in (1..Len(p)) \X (1..Len(p)) : x[1] < x[2] /\ p[x[1]] > p[x[2]]}) % 2 = 0 THEN 1 ELSE -1
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
Leibniz(m) == LET S == Perm[m.r] IN
    SumSet([p \in S |-> Parity(p) * ProdR(LAMBDA i : E(m, i, p[i + 1] - 1), 0, m.r - 1)], S)
Law == Done => LET c == Last a == c.a m == P(0) IN
    /\ Only(CASE c.op = "minor" -> {2} [] c.op \in {"ident"} -> {0} [] c.op \in {"det", "posd"} -> {} [] OTHER -> {1})
    /\ c.op = "det" => out.v = <<Leibniz(m)>>
    /\ c.op = "minor" => /\ out.x = Bool(a[2] \notin Ix \/ a[3] \notin Ix)
                         /\ out.x = 0 => /\ \A i \in 0..(M_ - 2), j \in 0..(M_ - 2) :
                                              E(R(2), i, j) = E(m, i + Bool(i >= a[2]), j + Bool(j >= a[3]))
                                         /\ out.v = <<Leibniz(R(2))>>
    /\ c.op = "adj" => LET d == Mk(M_, M_, 1, LAMBDA i, j : IF i = j THEN DetN(m) ELSE 0) IN
                       Same(MulM(m, R(1)), d) /\ Same(MulM(R(1), m), d)
    /\ c.op = "cof" => Same(MulM(m, TransM(R(1))), Mk(M_, M_, 1, LAMBDA i, j : IF i = j THEN DetN(m) ELSE 0))
    /\ c.op = "inv" => /\ out.v = <<Bool(Abs(Leibniz(m)) > Max2(a[3], 0))>>
                       /\ out.v = <<1>> => Same(MulM(m, R(1)), IdM(M_)) /\ Same(MulM(R(1), m), IdM(M_))
    /\ c.op = "ident" => Same(MulM(R(0), m), m)
    /\ c.op = "diag" => \A i \in Ix, j \in Ix : E(R(1), i, j) = IF i = j THEN V(P(3), i) ELSE 0
    /\ c.op = "scov" => \A i \in Ix, j \in Ix : E(R(1), i, j) = DotN(AsCol(RowOf(m, i)), AsCol(RowOf(m, j)))
    \* symmetric with positive first element: the quadratic form decides
    /\ (c.op = "posd" /\ M_ = 2 /\ E(m, 0, 1) = E(m, 1, 0) /\ E(m, 0, 0) > 0) =>
          out.v = <<Bool(\A x \in -3..3, y \in -3..3 :
                      E(m, 0, 0) * x * x + 2 * E(m, 0, 1) * x * y + E(m, 1, 1) * y * y >= 0)>>
    \* a Gram matrix is positive semidefinite
    /\ c.op = "posd" => (E(m, 0, 0) < 0 => out.v = <<0>>)
Emit == Export(Done)
=============================================================================
