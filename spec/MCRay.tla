-------------------------------- MODULE MCRay ------------------------------
(* Ray and sphere: the reported point is on the sphere, and no point of    *)
(* the ray before it is; without a hit no point is.                        *)
EXTENDS MC

Dirs == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 2>>, <<1, 1, 0>>, <<1, 2, 2>>, <<-2, 1, -2>>, <<1, -1, 3>>, <<3, 4, 0>>}
Os == [1..3 -> -2..2]
Cs == [1..3 -> -4..4]
Init == Begins("ray", <<0>>, {<< <<0, Raw(3, 1, 1, o)>>, <<1, Raw(3, 1, 1, d)>>, <<2, Raw(4, 1, 1, c \o <<r>>)>> >> :
    o \in Some(3, 12, Os), d \in Some(5, 8, Dirs), c \in Some(16, 60, Cs), r \in {0, 1, 2, 4}})
\* the straight rays do not depend on the registers: some of them
Next == Len(hist) = 0 /\ Goes({Cm("hit", <<>>)} \cup
    IF R(2).v[4] # 1 \/ R(1).v # <<1, 0, 0>> THEN {}
    ELSE {Cm("axis", <<(R(2).v[1] + R(0).v[1] + 12) % 3, IF R(2).v[2] < 0 THEN -1 ELSE 1, <<-14, 14, 15, 20000001>>[((R(2).v[3] + 40) % 4) + 1]>> \o t) :
        t \in {<<0, 3, 3>>, <<3, 4, 5>>, <<12, 5, 13>>, <<13, 0, 13>>, <<14, 0, 13>>}})
\* squared distance of the point at s / n along the ray from the sphere's centre, times n^2
D2(s, n) == SumR(LAMBDA k : LET e == n * (P(0).v[k] - P(2).v[k]) + s * P(1).v[k] IN e * e, 1, 3)
\* brute force over the points of the axis
Straight == LET w == Last.a[3] p == Last.a[4] r == Last.a[6] h == out.v[1]
            On(x) == (w - x) * (w - x) + p * p <= r * r IN
    /\ Only({}) /\ (w > 1000 => h = (IF p <= r THEN 1 ELSE 0))
    /\ w < 1000 => h = (IF \E x \in 0..40 : On(x) THEN 1 ELSE 0)
    /\ h = 1 => On(out.v[2]) /\ ~On(out.v[2] - 1)
Law == Done => IF Last.op = "axis" THEN Straight ELSE LET N == SumR(LAMBDA k : P(1).v[k] * P(1).v[k], 1, 3)
                   p == SumR(LAMBDA k : P(1).v[k] * (P(2).v[k] - P(0).v[k]), 1, 3)
                   r == P(2).v[4] h == out.v[1] delta == Abs(out.v[2]) IN
    /\ Only({})
    /\ D2(0, 1) > r * r /\ h = 0 => \A s \in 0..24 : D2(s, 2) > r * r * 4 \/ (D2(s, 2) = r * r * 4 /\ delta = 0)
    \* the parameter of the hit is (p + sign(out) sqrt(delta)) / N
    /\ h = 1 /\ IsSquare(delta) => LET s == p + Sgn(out.v[2]) * Sqrt(delta) IN D2(s, N) = r * r * N * N
    /\ h = 1 /\ D2(0, 1) > r * r /\ IsSquare(delta) => LET s == p - Sqrt(delta) IN
          /\ s >= 0 /\ out.v[2] <= 0
          /\ \A t \in 0..s : t < s => D2(t, N) > r * r * N * N
    \* from the inside there is always a hit
    /\ D2(0, 1) < r * r => h = 1 /\ out.v[2] > 0
Emit == Export(Done)
=============================================================================
