------------------------------ MODULE MCVPlane -----------------------------
(* Planes and spheres by incidence and distance.                           *)
EXTENDS MC

Pts(n, m) == {Raw(3, 1, 1, s) : s \in Some(n, m, [1..3 -> -2..3])}
Quads == {<<1, 0, 0, 1>>, <<0, -1, 0, 1>>, <<0, 3, -4, 5>>, <<1, -2, 2, 3>>, <<-2, 6, 3, 7>>}
Init == Begins("vecplane", <<4>>,
    {<< <<0, Raw(4, 1, x[4], <<x[1], x[2], x[3], w>>)>>, <<1, p>>, <<5, Raw(4, 1, 1, p2.v \o <<2>>)>> >> :
       x \in Quads, w \in {-3, 0, 4}, p \in Pts(4, 12), p2 \in Pts(3, 6)} \cup
    {<< <<2, a>>, <<3, b>>, <<4, IF flat THEN Raw(3, 1, 1, <<c.v[1], a.v[2], c.v[3]>>) ELSE c>>, <<1, p>> >> :
       flat \in BOOLEAN, a \in Pts(3, 8), b \in Pts(3, 8), c \in Pts(3, 6), p \in Pts(2, 3)})
Cmds == IF R(0).v = <<0, 0, 0, 0>> THEN {Cm("plane", <<2, 3, 4>>)}
        ELSE {Cm("d2p", <<>>), Cm("prp", <<>>), Cm("d2s", <<>>)} \cup
             (IF Xyz(R(5)).v # R(1).v /\ R(5).q = R(1).q THEN {Cm("prs", <<>>)} ELSE {})
Next == \/ Len(hist) = 0 /\ Goes(Cmds)
        \/ Len(hist) = 1 /\ Last.op = "plane" /\ R(0).v # <<0, 0, 0, 0>> /\ Goes({Cm("d2p", <<>>), Cm("prp", <<>>)})

\* value of the plane of register 0 at a point, over both denominators
At(pl, x) == SumR(LAMBDA k : pl.v[k] * x.v[k], 1, 3) + pl.v[4] * x.q
Law == Done => LET c == Last a == c.a pl == P(0) IN
    /\ Only(CASE c.op = "plane" -> {0} [] c.op \in {"prp", "prs"} -> {6} [] OTHER -> {})
    \* the three points are on it; unit normal; squares and signs agree with it
    /\ (c.op = "plane" /\ R(0).v # <<0, 0, 0, 0>>) =>
         /\ \A i \in 2..4 : At(R(0), P(i)) = 0
         /\ SumR(LAMBDA k : R(0).v[k] * R(0).v[k], 1, 3) = R(0).q * R(0).q
         /\ DetN(Raw(3, 3, 1, SubM(P(4), P(2)).v \o SubM(P(3), P(2)).v \o SubSeq(R(0).v, 1, 3))) > 0
         /\ \A k \in 1..4 : Sgn(out.v[k]) = Sgn(R(0).v[k]) /\ Abs(out.v[k]) * R(0).q * R(0).q = R(0).v[k] * R(0).v[k] * out.q
    /\ c.op = "plane" => (CrossM(SubM(P(4), P(2)), SubM(P(3), P(2))).v # <<0, 0, 0>> =>
                            SumR(LAMBDA k : Abs(out.v[k]), 1, 3) = out.q)
    \* the distance is attained along the normal
    /\ c.op = "d2p" => LET n == Raw(3, 1, pl.q, SubSeq(pl.v, 1, 3))
                           foot == SubM(P(1), ScaleM(n, out.v[1], out.q))
                       IN SumR(LAMBDA k : pl.v[k] * foot.v[k], 1, 3) + pl.v[4] * foot.q = 0
    \* on the plane, and moved along the normal
    /\ c.op = "prp" => /\ At(pl, R(6)) = 0
                       /\ CrossM(SubM(R(6), P(1)), Raw(3, 1, 1, SubSeq(pl.v, 1, 3))).v = <<0, 0, 0>>
    /\ c.op = "d2s" => out.v[2] = SumR(LAMBDA k : (P(1).v[k] - P(5).v[k]) * (P(1).v[k] - P(5).v[k]), 1, 3)
    \* at the distance of the radius, in the direction of the point
    /\ c.op = "prs" => /\ SumR(LAMBDA k : Abs(out.v[k]), 1, 3) = P(5).v[4] * P(5).v[4] * out.q
                       /\ \A k \in 1..3 : Sgn(out.v[k]) = Sgn(P(1).v[k] - P(5).v[k])
Emit == Export(Done /\ (Last.op # "plane" \/ R(0).v = <<0, 0, 0, 0>>))
=============================================================================
