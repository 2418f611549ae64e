----------------------------- MODULE MCLowpass ------------------------------
(* The filter: the weighted mean of the last values, newest first; its     *)
(* weights sum up to one and are not negative.                             *)
EXTENDS MC

Facs == {<<1, 2>>, <<0, 1>>, <<1, 1>>, <<1, 4>>, <<3, 4>>}
Vals == {-8, 0, 3, 64}
Pars == {<<3, 1>>, <<2, 3>>, <<1, 1>>}
Loads(p) == IF p[2] = 1 THEN {Raw(1, 1, 1, <<v>>) : v \in Vals} ELSE {Raw(3, 1, 1, <<v, -v, 5>>) : v \in Vals}
Init == \E p \in Pars : Begins("lowpass", p, {<< <<0, x>> >> : x \in Loads(p)})
Ld(x) == Cm("ld", <<0, x.q>> \o x.v)
Next == CASE Len(hist) = 0 -> Goes({Cm("new", <<1, f[1], f[2]>>) : f \in Facs})
          [] Len(hist) \in {1, 3, 5, 7} -> Goes({Cm("add", <<1>>)} \cup (IF Len(hist) = 3 THEN {Cm("cp", <<2, 1>>), Cm("sf", <<1, 1, 4>>)} ELSE {}))
          [] Len(hist) \in {2, 4, 6} -> Goes({Ld(x) : x \in Some(2, 4, Loads(par))})
          [] Len(hist) = 8 -> Goes({Cm("get", <<i, 0>>) : i \in 1..2})
          [] OTHER -> FALSE
\* the values given to filter i since its start, latest first; a copy takes over
RECURSIVE Given(_, _), Val(_), Fac(_, _)
Val(k) == IF k = 0 THEN start[1] ELSE IF hist[k].op = "ld" THEN Raw(par[2], 1, 1, From(hist[k].a, 3)) ELSE Val(k - 1)
Given(i, k) == IF k = 0 THEN <<>> ELSE LET c == hist[k] IN
    CASE c.op = "new" /\ c.a[1] = i -> <<>>
      [] c.op = "add" /\ c.a[1] = i -> <<Val(k)>> \o Given(i, k - 1)
      [] c.op = "cp" /\ c.a[1] = i -> Given(c.a[2], k - 1)
      [] OTHER -> Given(i, k - 1)
Fac(i, k) == IF k = 0 THEN <<1, 2>> ELSE LET c == hist[k] IN
    CASE c.op \in {"new", "sf"} /\ c.a[1] = i -> <<c.a[2], c.a[3]>>
      [] c.op = "cp" /\ c.a[1] = i -> Fac(c.a[2], k - 1)
      [] OTHER -> Fac(i, k - 1)
\* the weight of the value of age j among n, times d to the power of (n - 1) n / 2
RECURSIVE Rest(_, _, _, _)
Rest(f, j, n, i) == IF i >= n THEN 1 ELSE (IF i < j THEN Pow(f[2], i) ELSE IF i = j THEN Pow(f[1], i) ELSE Pow(f[2], i) - Pow(f[1], i)) * Rest(f, j, n, i + 1)
Weight(f, j, n) == Rest(f, j, n, 1)
Law == Done => LET c == Last i == c.a[1] k == Len(hist) IN
    c.op = "add" =>
       LET g == Given(1, k) n == Min2(par[1], Len(g)) f == Fac(1, k)
           W == Pow(f[2], (n * (n - 1)) \div 2)
       IN /\ SumR(LAMBDA j : Weight(f, j, n), 0, n - 1) = W
          /\ \A j \in 0..(n - 1) : Weight(f, j, n) >= 0
          /\ \A x \in 1..par[2] : R(1).v[x] * W = SumR(LAMBDA j : Weight(f, j, n) * g[j + 1].v[x], 0, n - 1) * R(1).q
          /\ out.v = R(1).v /\ R(2) = P(2)
Emit == Export(Len(hist) = 9)
=============================================================================
