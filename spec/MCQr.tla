-------------------------------- MODULE MCQr --------------------------------
(* The decomposition: orthonormal columns, an upper triangular factor with *)
(* positive diagonal, and their product is the matrix.                     *)
EXTENDS MC

Pars == {<<2, 2>>, <<3, 3>>, <<3, 2>>}
Id3 == IdM(3)
\* orthogonal matrices
Rot(M, i, j, c, s, h) == Mk(M, M, h, LAMBDA r, k : IF (r = i /\ k = i) \/ (r = j /\ k = j) THEN c ELSE IF r = i /\ k = j THEN -s ELSE IF r = j /\ k = i THEN s ELSE IF r = k THEN h ELSE 0)
Perms(M) == {p \in [1..M -> 1..M] : Cardinality({p[k] : k \in 1..M}) = M}
Signed_(M) == {Mk(M, M, 1, LAMBDA r, k : IF p[r + 1] = k + 1 THEN s[r + 1] ELSE 0) : p \in Perms(M), s \in [1..M -> {-1, 1}]}
House == Raw(3, 3, 3, <<1, -2, -2, -2, 1, -2, -2, -2, 1>>)
Orth(M) == Signed_(M) \cup {Rot(M, 0, M - 1, t[1], t[2], t[3]) : t \in {<<3, 4, 5>>, <<-5, 12, 13>>, <<4, -3, 5>>}} \cup (IF M = 3 THEN {House} ELSE {})
Tri(N) == {Mk(N, N, 1, LAMBDA i, j : IF i > j THEN 0 ELSE IF i = j THEN d[i + 1] ELSE u[i + j]) : d \in [1..N -> {1, 2, 3}], u \in [1..(2 * N) -> {-2, 0, 1}]}
Lowest_(m) == LET g == Gcd(GcdAll(m.v, Len(m.v)), m.q) IN Raw(m.r, m.c, m.q \div g, [k \in 1..Len(m.v) |-> m.v[k] \div g])
Inputs(p) == {Lowest_(MulM(SubMat(q, p[1], p[2], 0, 0), r)) : q \in Some(16, 60, Orth(p[1])), r \in Some(12, 60, Tri(p[2]))}
Init == \E p \in Pars : Begins("qr", p, {<< <<0, a>> >> : a \in Inputs(p)})
Next == Len(hist) = 0 /\ Goes({Cm("qr", <<LcmAll(<<5, 13, 3>>, 3)>>)})
Law == Done => LET A == R(0) Q == R(1) T == R(2) M == par[1] N == par[2] IN
    /\ Only({1, 2})
    /\ \A i, j \in 0..(N - 1) : SumR(LAMBDA k : E(Q, k, i) * E(Q, k, j), 0, M - 1) = IF i = j THEN Q.q * Q.q ELSE 0
    /\ \A i, j \in 0..(N - 1) : IF i > j THEN E(T, i, j) = 0 ELSE (i = j => E(T, i, i) > 0)
    /\ \A i \in 0..(M - 1), j \in 0..(N - 1) :
          SumR(LAMBDA k : E(Q, i, k) * E(T, k, j), 0, N - 1) * A.q = E(A, i, j) * Q.q * T.q
Emit == Export(Done)
=============================================================================
