------------------------------- MODULE MCQuant ------------------------------
(* Quantization: monotone, exact at the ends, off by half a step.          *)
EXTENDS MC

Pars == {<<3, 1, 0, 255, 0>>, <<3, 1, -128, 127, 0>>, <<3, 1, 0, 65535, 0>>, <<3, 1, -32768, 32767, 0>>,
         <<3, 1, 0, 255, 1>>, <<3, 1, -128, 127, 1>>, <<3, 1, 0, 65535, 1>>}
IntEl == par[5] = 1
Rng == {<<-1, 1>>, <<0, 1>>, <<0, 255>>, <<-128, 127>>, <<3, 10>>, <<-7, -2>>, <<0, 51>>, <<-100, 100>>}
Vals(r) == {<<x, y, z>> : x \in {r[1], r[1] + 1, (r[1] + r[2]) \div 2}, y \in {r[1], r[2], r[2] - 1}, z \in {r[1] - 3, r[2], r[2] + 2, 0}}
Init == \E p \in Pars, r \in Rng : \E q \in IF p[5] = 1 THEN {1} ELSE {1, 4} :
    Begins("quant", p, {<< <<0, Raw(3, 1, q, [k \in 1..3 |-> q * v[k]])>>, <<3, Raw(2, 1, 1, r)>> >> : v \in Some(6, 60, Vals(r))} \cup
                       {<< <<0, Raw(3, 1, q, <<r[1] * q, x, r[2] * q>>)>>, <<3, Raw(2, 1, 1, r)>> >> : x \in Some(3, 40, (r[1] * q)..(r[2] * q))} \cup
                       {<< <<1, Raw(3, 1, 1, v)>>, <<3, Raw(2, 1, 1, r)>> >> :
                          v \in Some(6, 60, {<<x, y, z>> : x \in {p[3], p[3] + 1, 0}, y \in {p[4], p[4] - 1}, z \in {1, 2, (p[4] \div 2), (p[4] \div 2) + 1}})})
Loaded(i) == start[i + 1] # InitRegs(kind, par)[i + 1]
Next == \/ Len(hist) = 0 /\ Goes(IF Loaded(1) THEN {Cm("deq", <<>>)} ELSE {Cm("qto", <<>>)} \cup {Cm("far", <<j, 0, s, e>>) : j \in {1}, s \in {-1, 1}, e \in IF IntEl THEN {20} ELSE {0, 70}} \cup
              (IF Elems(R(0)) = {R(0).v[1]} THEN {} ELSE {Cm("q", <<>>)}))
        \/ Len(hist) = 1 /\ Last.op \in {"q", "qto"} /\ Goes({Cm("deq", <<>>)})
L == par[3]
H == par[4]
Quant1(x, rng) == LET n(k) == x.v[k] * rng.q r(k) == rng.v[k] * x.q IN
    /\ \A i, j \in 1..3 : x.v[i] <= x.v[j] => R(1).v[i] <= R(1).v[j]
    /\ \A i \in 1..3 : R(1).v[i] \in L..H /\ R(1).q = 1
    /\ \A i \in 1..3 : /\ n(i) >= r(2) => R(1).v[i] = H
                       /\ n(i) <= r(1) => R(1).v[i] \in {L, L + 1}   \* -127.5 + .5 is truncated
                       /\ (n(i) <= r(1) /\ L = 0) => R(1).v[i] = 0
                       /\ (2 * n(i) = r(1) + r(2) /\ L < 0) => R(1).v[i] = 0
Law == Done =>
    /\ Only(CASE Last.op \in {"qto", "far"} -> {1} [] Last.op = "q" -> {1, 3} [] Last.op = "deq" -> {2})
    /\ Last.op = "qto" => Quant1(R(0), R(3))
    /\ Last.op = "far" => /\ R(1).v[2] = (IF Last.a[3] < 0 THEN L ELSE H)
                          /\ \A i, j \in {1, 3} : R(0).v[i] <= R(0).v[j] => R(1).v[i] <= R(1).v[j]
    /\ Last.op = "q" => /\ Quant1(R(0), R(3))
                        /\ \A k \in 1..3 : R(3).v[1] <= R(0).v[k] /\ R(0).v[k] <= R(3).v[2]
                        /\ Elems(R(3)) \subseteq Elems(R(0)) /\ R(3).q = R(0).q
    /\ Last.op = "deq" =>
          LET w == V(R(3), 1) - V(R(3), 0) d == R(2) IN
          /\ \A k \in 1..3 : V(R(3), 0) * (d.q \div R(3).q) <= d.v[k] /\ d.v[k] <= V(R(3), 1) * (d.q \div R(3).q)
          /\ \A i, j \in 1..3 : R(1).v[i] <= R(1).v[j] => d.v[i] <= d.v[j]
          /\ \A i \in 1..3 : R(1).v[i] = H => LET t == V(R(3), 1) * (d.q \div R(3).q) - d.v[i] IN
                IF L = 0 THEN t = 0 ELSE 0 <= t /\ (t - par[5]) * (H - L) <= w * (d.q \div R(3).q)
          /\ L = 0 => \A i \in 1..3 : R(1).v[i] = 0 => d.v[i] = V(R(3), 0) * (d.q \div R(3).q)
          /\ IntEl => d.q = 1
          \* back from where it came: within half a step; where x + 1/2 is truncated
          \* towards zero although negative, one and a half
          /\ (Len(hist) = 2 /\ H <= 255) =>
                LET q == Lcm(d.q, R(0).q) x == Over(R(0), q) y == Over(d, q) g == q \div R(3).q IN
                \A k \in 1..3 : (V(R(3), 0) * g <= x.v[k] /\ x.v[k] <= V(R(3), 1) * g) =>
                     2 * (H - L) * Abs(x.v[k] - y.v[k]) <= (IF L = 0 THEN 1 ELSE 3) * w * g + (IF IntEl THEN H - L ELSE 0)
Emit == Export(Done /\ (Len(hist) = 2 \/ Last.op = "deq"))
=============================================================================
