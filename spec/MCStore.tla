------------------------------ MODULE MCStore ------------------------------
(* Storage: all access paths and positions, inside and just outside.       *)
EXTENDS MC

Seq1(n, x) == [k \in 1..n |-> x + k]
Full(p) == << <<0, Raw(p[1], p[2], 1, Seq1(p[1] * p[2], 0))>>,
              <<1, Raw(p[1], p[2], 1, Seq1(p[1] * p[2], 10))>>,
              <<2, Raw(p[1], 1, 1, Seq1(p[1], 20))>>, <<3, Raw(p[2], 1, 1, Seq1(p[2], 25))>>,
              <<4, Raw(p[3], p[4], 1, Seq1(p[3] * p[4], 30))>>,
              <<5, Raw(1, p[2], 1, Seq1(p[2], 35))>>, <<6, Raw(p[1], 1, 1, Seq1(p[1], 40))>> >>
Shapes == {<<2, 3, 1, 2>>, <<3, 2, 2, 1>>, <<1, 4, 1, 3>>}
Init == \E p \in Shapes : Begins("matstore", p, {Full(p)})

M == par[1]
N == par[2]
Inside == (0..(M - 1)) \X (0..(N - 1))
Border == ((-1..M) \X (-1..N)) \ Inside
ISet == -1..M
JSet == -1..N
Writes ==
    {Cm("wr", <<0, p, x[1], x[2], 9>>) : p \in 0..7, x \in Inside} \cup
    {Cm("wr", <<0, p, x[1], x[2], 9>>) : p \in 0..3, x \in Border} \cup
    {Cm("srow", <<0, i, f>>) : i \in ISet, f \in 0..1} \cup
    {Cm("scol", <<0, j, f>>) : j \in JSet, f \in 0..1} \cup
    {Cm("ssub", <<0, i, j, f>>) : i \in ISet, j \in JSet, f \in 0..1} \cup
    {Cm("fill", <<0, f, 7>>) : f \in 0..2} \cup {Cm("cp", <<0, 1, f>>) : f \in 0..2} \cup
    {Cm("cp", <<0, 0, 0>>), Cm("swap", <<0, 1>>)} \cup
    {Cm("seti", <<0, o, f>> \o Seq1(n, 50)) : o \in 0..1, f \in 0..2, n \in {0, 1, M, N, M * N - 1, M * N, M * N + 2}} \cup
    {Cm("setv", <<0>> \o Seq1(n, 60)) : n \in {0, M * N - 1, M * N, M * N + 2}}
Reads ==
    {Cm("rd", <<0, p, x[1], x[2]>>) : p \in (0..7) \cup (10..17), x \in Inside} \cup
    {Cm("rd", <<0, p, x[1], x[2]>>) : p \in (0..3) \cup (10..13), x \in Border} \cup
    {Cm("all", <<0, p>>) : p \in (0..7) \cup (10..17)} \cup
    {Cm("iter", <<0, r, f>>) : r \in 0..1, f \in 0..1} \cup
    {Cm("grow", <<0, i, f>>) : i \in ISet, f \in 0..2} \cup
    {Cm("gcol", <<0, j, f>>) : j \in JSet, f \in 0..2} \cup
    {Cm("gsub", <<0, i, j, f>>) : i \in ISet, j \in JSet, f \in 0..1} \cup
    {Cm("dims", <<0>>), Cm("eq", <<0, 1>>), Cm("eq", <<0, 0>>), Cm("near", <<0, 1, 2, 0>>),
     Cm("near", <<0, 0, 1, 2>>), Cm("sgeq", <<0, 1, 0, 0>>), Cm("sgeq", <<0, 1, 1, 0>>), Cm("sgeq", <<0, 1, 0, 3>>), Cm("sgeq", <<0, 1, 1, 3>>)}
\* one write, then anything
Firsts == Some(40, 400, Writes)
Next == \/ Len(hist) = 0 /\ Goes(Firsts \cup Reads)
        \/ Len(hist) = 1 /\ Last \in Writes /\ Goes(Reads \cup Writes)

Dest(c) == CASE c.op \in {"wr", "srow", "scol", "ssub", "fill", "cp", "seti", "setv"} -> {0}
             [] c.op = "swap" -> {0, 1}
             [] c.op = "grow" -> {IF c.a[3] = 2 THEN 5 ELSE 3}
             [] c.op = "gcol" -> {IF c.a[3] = 2 THEN 6 ELSE 2}
             [] c.op = "gsub" -> {4}
             [] OTHER -> {}
\* which elements a write may change, and what they become
Cells(c) == LET a == c.a IN
    CASE c.op = "wr"   -> {<<a[3], a[4]>>}
      [] c.op = "srow" -> {x \in Inside : x[1] = a[2]}
      [] c.op = "scol" -> {x \in Inside : x[2] = a[2]}
      [] c.op = "ssub" -> {x \in Inside : x[1] >= a[2] /\ x[1] < a[2] + par[3] /\ x[2] >= a[3] /\ x[2] < a[3] + par[4]}
      [] c.op = "seti" -> {x \in Inside : (IF a[2] = 1 THEN x[1] * N + x[2] ELSE x[2] * M + x[1]) < Len(a) - 3}
      [] OTHER         -> Inside
Value(c, x) == LET a == c.a i == x[1] j == x[2] IN
    CASE c.op = "wr"   -> 9
      [] c.op = "srow" -> (IF a[3] = 1 THEN P(5) ELSE P(3)).v[j + 1]
      [] c.op = "scol" -> (IF a[3] = 1 THEN P(6) ELSE P(2)).v[i + 1]
      [] c.op = "ssub" -> E(P(4), i - a[2], j - a[3])
      [] c.op = "fill" -> IF a[2] = 2 THEN 0 ELSE 7
      [] c.op = "cp"   -> E(P(a[2]), i, j)
      [] c.op = "swap" -> E(P(1), i, j)
      [] c.op = "seti" -> a[4 + (IF a[2] = 1 THEN i * N + j ELSE j * M + i)]
      [] c.op = "setv" -> a[2 + i * N + j]
Legal(c) == LET a == c.a IN
    CASE c.op \in {"wr", "rd"} -> <<a[3], a[4]>> \in Inside
      [] c.op \in {"srow", "grow"} -> a[2] \in 0..(M - 1)
      [] c.op \in {"scol", "gcol"} -> a[2] \in 0..(N - 1)
      [] c.op \in {"ssub", "gsub"} -> a[2] \in 0..(M - par[3]) /\ a[3] \in 0..(N - par[4])
      [] c.op = "setv" -> Len(a) - 1 >= M * N
      [] OTHER -> TRUE
Law == Done => LET c == Last a == c.a IN
    /\ Only(Dest(c))
    \* rejected exactly if outside
    /\ out.x = Bool(~Legal(c))
    /\ ~Legal(c) /\ c.op # "ssub" => regs = pre
    \* read after write, and nothing else changed
    /\ (Legal(c) /\ c \in Writes) =>
         \A x \in Inside : E(R(0), x[1], x[2]) =
             IF x \in Cells(c) THEN Value(c, x) ELSE E(P(0), x[1], x[2])
    /\ c.op = "swap" => R(1) = P(0)
    \* every read yields what is stored
    /\ (Legal(c) /\ c.op = "rd") => out.v = <<E(P(0), a[3], a[4])>>
    /\ c.op = "all" => \A x \in Inside : out.v[x[1] * N + x[2] + 1] = E(P(0), x[1], x[2])
    /\ c.op = "iter" => \A x \in Inside :
         out.v[IF a[2] = 0 THEN x[2] * M + x[1] + 1 ELSE M * N - (x[2] * M + x[1])] = E(P(0), x[1], x[2])
    /\ (Legal(c) /\ c.op = "grow") => \A j \in 0..(N - 1) : R(IF a[3] = 2 THEN 5 ELSE 3).v[j + 1] = E(P(0), a[2], j)
    /\ (Legal(c) /\ c.op = "gcol") => \A i \in 0..(M - 1) : R(IF a[3] = 2 THEN 6 ELSE 2).v[i + 1] = E(P(0), i, a[2])
    /\ (Legal(c) /\ c.op = "gsub") => \A i \in 0..(par[3] - 1), j \in 0..(par[4] - 1) :
         E(R(4), i, j) = E(P(0), a[2] + i, a[3] + j)
    /\ c.op = "eq" => out.v[1] = Bool(\A x \in Inside : E(P(a[1]), x[1], x[2]) = E(P(a[2]), x[1], x[2]))
Emit == Export(Len(hist) = 2 \/ (Len(hist) = 1 /\ Last \in Reads))
=============================================================================
