------------------------------ MODULE MCArith ------------------------------
(* Arithmetic: the identities of the matrix algebra.                       *)
EXTENDS MC

Triple(p, a, b, c) == LET n == p[1] * p[2] IN
    << <<0, Raw(p[1], p[2], 1, SubSeq(a, 1, n))>>, <<1, Raw(p[1], p[2], 1, SubSeq(b, 1, n))>>,
       <<2, Raw(p[1], p[2], 1, SubSeq(c, 1, n))>>,
       <<3, Raw(p[2], p[3], 1, SubSeq(b \o a, 1, p[2] * p[3]))>>,
       <<5, Raw(p[2], p[1], 1, SubSeq(c, 1, n))>>, <<6, Raw(p[2], 1, 1, SubSeq(a, 1, p[2]))>> >>
Numbers(n, m) == Some(n, m, [1..9 -> -2..3])
Init == \E p \in {<<2, 2, 3>>, <<2, 3, 2>>, <<3, 3, 1>>, <<1, 4, 2>>} :
    Begins("matarith", p, LET A == Numbers(2, 6) B == Numbers(2, 6) C == Numbers(1, 3) IN
                          {Triple(p, a, b, c) : a \in A, b \in B, c \in C})
M_ == par[1]
N_ == par[2]
RegsMN == 0..2
Binary == {Cm(o, <<d, a, b>>) : o \in {"add", "sub"}, d \in RegsMN, a \in RegsMN, b \in RegsMN}
InPlace == {Cm(o, <<d, a>>) : o \in {"addip", "subip", "pw"}, d \in RegsMN, a \in RegsMN}
Unary == {Cm("neg", <<d, a, f>>) : d \in RegsMN, a \in RegsMN, f \in 0..1} \cup
    {Cm("shift", <<d, f, k>>) : d \in {0}, f \in 0..1, k \in {-3, 0, 2}} \cup
    {Cm("muls", <<d, d, 1, k>>) : d \in {0}, k \in {-3, 0, 2}} \cup
    {Cm("muls", <<d, a, 0, k>>) : d \in {1}, a \in RegsMN, k \in {-1, 3}} \cup
    {Cm("divs", <<d, d, 1, k>>) : d \in {0}, k \in {-2, 1, 3}} \cup
    {Cm("divs", <<d, a, 0, k>>) : d \in {1}, a \in RegsMN, k \in {-2, 4}} \cup
    {Cm("divi", x) : x \in {<<d, a, Bool(d = a), k>> : d \in 0..1, a \in {y \in RegsMN : R(y).q = 1}, k \in {-2, 1, 3}}} \cup
    {Cm("self", <<0, i, j>>) : i \in 0..(M_ - 1), j \in 0..(N_ - 1)} \cup
    {Cm("selfs", <<0, i, j, f>>) : i \in 0..(M_ - 1), j \in 0..(N_ - 1), f \in 0..1} \cup
    {Cm("selfd", x) : x \in {<<0, i, j>> : i \in 0..(M_ - 1), j \in 0..(N_ - 1)} \cap {<<0, i, j>> : <<i, j>> \in
        {y \in (0..(M_ - 1)) \X (0..(N_ - 1)) : E(R(0), y[1], y[2]) # 0 /\ R(0).q = 1}}}
Products_ == {Cm("mul", <<a, f>>) : a \in RegsMN, f \in 0..2} \cup
    {Cm("mv", <<a, 0>>) : a \in RegsMN} \cup
    {Cm("tr", <<a, f>>) : a \in RegsMN, f \in 0..1} \cup {Cm("trb", <<a, f>>) : a \in RegsMN, f \in 0..1} \cup
    (IF M_ = N_ THEN {Cm("sqm", <<d, a, b, f>>) : d \in RegsMN, a \in RegsMN, b \in RegsMN, f \in 0..2} \cup
                     {Cm("sqip", <<d, a>>) : d \in RegsMN, a \in RegsMN} ELSE {})
All_ == Binary \cup InPlace \cup Unary \cup Products_
Next == \/ Len(hist) = 0 /\ Goes(All_)
        \/ Len(hist) = 1 /\ Goes(Some(3, 10, Binary \cup InPlace \cup Products_))

Units(n) == {Mk(n, 1, 1, LAMBDA i, j : Bool(i = k)) : k \in 0..(n - 1)} \cup {Mk(n, 1, 1, LAMBDA i, j : i - 2)}
Dest(c) == CASE c.op \in {"mul"} -> {4} [] c.op = "mv" -> {7} [] c.op = "tr" -> {5} [] OTHER -> {c.a[1]}
\* all elements over the common denominator
Elementwise(r, f(_, _)) == \A i \in 0..(r.r - 1), j \in 0..(r.c - 1) : f(i, j)
Law == Done => LET c == Last a == c.a IN
    /\ Only(Dest(c)) /\ out = Void
    /\ c.op = "add" => /\ Same(SubM(R(a[1]), P(a[3])), P(a[2])) /\ Same(R(a[1]), AddM(P(a[3]), P(a[2])))
                       \* distributive over the product, from both sides
                       /\ Same(MulM(R(a[1]), P(3)), AddM(MulM(P(a[2]), P(3)), MulM(P(a[3]), P(3))))
                       /\ Same(MulM(P(5), R(a[1])), AddM(MulM(P(5), P(a[2])), MulM(P(5), P(a[3]))))
    /\ c.op = "sub" => Same(AddM(R(a[1]), P(a[3])), P(a[2]))
    /\ c.op = "addip" => Same(SubM(R(a[1]), P(a[2])), P(a[1]))
    /\ c.op = "subip" => Same(AddM(R(a[1]), P(a[2])), P(a[1]))
    /\ c.op = "neg" => Same(AddM(R(a[1]), P(a[2])), ZeroM(M_, N_))
    /\ c.op = "shift" => Same(SubM(R(a[1]), P(a[1])), Const(M_, N_, IF a[2] = 0 THEN a[3] ELSE -a[3]))
    \* k m is the sum of |k| copies of m or -m
    /\ c.op = "muls" => LET S[k \in 0..3] == IF k = 0 THEN ZeroM(M_, N_)
                                   ELSE AddM(S[k - 1], IF a[4] > 0 THEN P(a[2]) ELSE NegM(P(a[2])))
                        IN Same(R(a[1]), S[Abs(a[4])])
    /\ c.op = "divs" => Same(MulM(R(a[1]), Mk(N_, N_, 1, LAMBDA i, j : IF i = j THEN a[4] ELSE 0)), P(a[2]))
    \* a = k * quotient + remainder, the remainder smaller than k and with the sign of a
    /\ c.op = "divi" => /\ R(a[1]).q = 1
                        /\ \A i \in 0..(M_ - 1), j \in 0..(N_ - 1) :
                              LET x == E(P(a[2]), i, j) y == x - a[4] * E(R(a[1]), i, j)
                              IN Abs(y) < Abs(a[4]) /\ (x >= 0 => y >= 0) /\ (x <= 0 => y <= 0)
    /\ c.op = "self" => Same(R(0), ScaleM(P(0), E(P(0), a[2], a[3]), P(0).q))
    /\ c.op = "selfd" => /\ E(R(0), a[2], a[3]) = R(0).q
                         /\ Same(ScaleM(R(0), E(P(0), a[2], a[3]), 1), P(0))
    /\ c.op = "selfs" => Same(SubM(R(0), P(0)), ScaleM(Const(M_, N_, E(P(0), a[2], a[3])), IF a[4] = 0 THEN 1 ELSE -1, P(0).q))
    /\ c.op = "pw" => Elementwise(R(a[1]), LAMBDA i, j :
          E(R(a[1]), i, j) * P(a[1]).q * P(a[2]).q = E(P(a[1]), i, j) * E(P(a[2]), i, j) * R(a[1]).q)
    \* the product is the composition of the linear maps
    /\ c.op = "mul" => /\ \A u \in Units(par[3]) : Same(MulM(R(4), u), MulM(P(a[1]), MulM(P(3), u)))
                       /\ Same(TransM(R(4)), MulM(TransM(P(3)), TransM(P(a[1]))))
    /\ c.op \in {"sqm", "sqip"} =>
          LET A == P(IF c.op = "sqm" THEN a[2] ELSE a[1])
              B == P(IF c.op = "sqm" THEN a[3] ELSE a[2])
          IN /\ \A u \in Units(N_) : Same(MulM(R(a[1]), u), MulM(A, MulM(B, u)))
             /\ DetN(R(a[1])) * Pow(A.q * B.q, M_) = DetN(A) * DetN(B) * Pow(R(a[1]).q, M_)
             /\ Same(TransM(R(a[1])), MulM(TransM(B), TransM(A)))
    /\ c.op = "tr" => Elementwise(R(5), LAMBDA i, j : E(R(5), i, j) = E(P(a[1]), j, i)) /\ R(5).q = P(a[1]).q
    /\ c.op = "trb" => Elementwise(R(a[1]), LAMBDA i, j : E(R(a[1]), i, j) = E(P(5), j, i)) /\ R(a[1]).q = P(5).q
    /\ c.op = "mv" => \A i \in 0..(M_ - 1) :
          V(R(7), i) * P(a[1]).q * P(6).q = DotN(AsCol(RowOf(P(a[1]), i)), P(6)) * R(7).q
Emit == Export(Len(hist) = 2)
=============================================================================
