------------------------------ MODULE MCReduce -----------------------------
(* Reductions by their quantified definitions.                             *)
EXTENDS MC

Pars == {<<2, 2>>, <<1, 3>>, <<3, 2>>, <<1, 1>>}
Init == \E p \in Pars : Begins("matreduce", p,
    {<< <<0, Raw(p[1], p[2], 1, s)>> >> : s \in Some(70, 1500, [1..(p[1] * p[2]) -> -3..3])})
Cmds == {Cm(o, <<0>>) : o \in {"min", "max", "amin", "amax", "sum", "nnz", "frob"}} \cup
        {Cm("nnzt", <<0, t>>) : t \in 0..3} \cup {Cm("thr", <<0, t>>) : t \in 0..3} \cup {Cm("pnor", <<0, p>>) : p \in 1..4}
Next == Len(hist) = 0 /\ Goes(Cmds)

Ix == 1..Len(P(0).v)
X(k) == P(0).v[k]
Attained(f(_), y) == \E k \in Ix : f(X(k)) = y
\* number of indices with the property, by removing one at a time
RECURSIVE Count(_, _)
Count(S, k) == IF k = 0 THEN 0 ELSE Count(S, k - 1) + Bool(k \in S)
Law == Done => LET c == Last a == c.a o == out.v IN
    /\ Only(IF c.op = "thr" THEN {0} ELSE {})
    /\ c.op = "min" => Attained(LAMBDA x : x, o[1]) /\ \A k \in Ix : o[1] <= X(k)
    /\ c.op = "max" => Attained(LAMBDA x : x, o[1]) /\ \A k \in Ix : o[1] >= X(k)
    /\ c.op = "amin" => Attained(LAMBDA x : Abs(x), o[1]) /\ \A k \in Ix : o[1] <= Abs(X(k))
    /\ c.op = "amax" => Attained(LAMBDA x : Abs(x), o[1]) /\ \A k \in Ix : o[1] >= Abs(X(k))
    /\ c.op = "sum" => o[1] = MulM(MulM(Const(1, P(0).r, 1), P(0)), Const(P(0).c, 1, 1)).v[1]
    /\ c.op = "nnz" => o[1] = Count({k \in Ix : X(k) > 0 \/ X(k) < 0}, Len(P(0).v))
    /\ c.op = "nnzt" => o[1] = Count({k \in Ix : X(k) > a[2] \/ X(k) < -a[2]}, Len(P(0).v))
    /\ c.op = "thr" => \A k \in Ix : R(0).v[k] = IF X(k) > a[2] \/ X(k) < -a[2] THEN X(k) ELSE 0
    \* trace of A A^T
    /\ c.op = "frob" => LET T == MulM(P(0), TransM(P(0))) IN
                        o = <<Bool(\E k \in Ix : X(k) # 0), SumR(LAMBDA i : E(T, i, i), 0, T.r - 1)>>
    /\ c.op = "pnor" => /\ o[1] = Bool(\E k \in Ix : X(k) # 0)
                        /\ a[2] % 2 = 0 => o[2] = SumR(LAMBDA k : ProdR(LAMBDA i : X(k), 1, a[2]), 1, Len(P(0).v))
                        /\ a[2] = 1 => o[2] = SumR(LAMBDA k : Max2(X(k), -X(k)), 1, Len(P(0).v))
Emit == Export(Done)
=============================================================================
