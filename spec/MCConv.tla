------------------------------- MODULE MCConv ------------------------------
(* Conversions between shapes and types.                                   *)
EXTENDS MC

Pars == {<<3, 2, 2, 4>>, <<3, 3, 4, 4>>, <<2, 2, 5, 3>>, <<1, 4, 4, 1>>}
Numbered(r, c, x) == Mk(r, c, 1, LAMBDA i, j : x + i * c + j)
Init == \E p \in Pars : Begins("matconv", p, {<<>>,
    << <<0, Numbered(p[1], p[2], 1)>>, <<1, Numbered(p[3], p[4], 20)>>, <<2, Numbered(p[1], p[2], 50)>> >>})
Pairs_ == {<<0, 1>>, <<1, 0>>, <<0, 2>>, <<2, 0>>, <<1, 2>>, <<2, 1>>}
Cmds == {Cm("cvt", p \o <<f>>) : p \in Pairs_, f \in 0..1} \cup {Cm("cast", p) : p \in {<<0, 2>>, <<2, 0>>}} \cup
        {Cm("arr", <<d, f>> \o [k \in 1..Size(R(d)) |-> 70 + k]) : d \in 0..2, f \in 0..1} \cup
        {Cm("dflt", <<d>>) : d \in 0..2} \cup {Cm("zer", <<d>>) : d \in 0..2}
Next == \/ Len(hist) = 0 /\ Goes(Cmds)
        \/ Len(hist) = 1 /\ Goes(Cmds)
        \/ Len(hist) = 2 /\ Goes(Some(2, 12, Cmds))

El(m, i, j) == IF i < m.r /\ j < m.c THEN E(m, i, j) ELSE 0
Law == Done => LET c == Last a == c.a d == R(a[1]) IN
    /\ Only({a[1]}) /\ out = Void /\ d.r = P(a[1]).r /\ d.c = P(a[1]).c
    /\ c.op \in {"cvt", "cast"} => \A i \in 0..4, j \in 0..4 : (i < d.r /\ j < d.c) => El(d, i, j) = El(P(a[2]), i, j)
    \* back again: at most what the smaller shape does not hold is lost
    /\ (Len(hist) = 2 /\ c.op = "cvt" /\ hist[1].op = "cvt" /\ hist[1].a[1] = a[2] /\ hist[1].a[2] = a[1]) =>
         LET m == start[a[1] + 1] IN
         \A i \in 0..4, j \in 0..4 : (i < d.r /\ j < d.c) =>
             E(d, i, j) = IF i < R(a[2]).r /\ j < R(a[2]).c THEN E(m, i, j) ELSE 0
    /\ c.op = "arr" => \A i \in 0..(d.r - 1), j \in 0..(d.c - 1) : E(d, i, j) = 71 + i * d.c + j
    /\ c.op \in {"dflt", "zer"} => \A i \in 0..(d.r - 1), j \in 0..(d.c - 1) :
          E(d, i, j) = IF c.op = "dflt" /\ d.r = d.c /\ i = j THEN 1 ELSE 0
Emit == Export(Len(hist) = 3)
=============================================================================
