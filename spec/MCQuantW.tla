----------------------------- MODULE MCQuantW ------------------------------
(* Quantization to 32 bits: monotone, exact at the ends and in the middle, *)
(* the upper half is the quantization to 16 bits.                          *)
EXTENDS MC

Pars == {<<3, 1, 0>>, <<3, 1, 1>>}
Rng == {<<-1, 1>>, <<0, 1>>, <<0, 256>>, <<-128, 128>>, <<3, 10>>, <<-7, -2>>, <<0, 51>>, <<-100, 100>>}
Vals(r) == {<<x, y, z>> : x \in {r[1], r[1] + 1, (r[1] + r[2]) \div 2}, y \in {r[1], r[2], r[2] - 1}, z \in {r[1] - 3, r[2], r[2] + 2, 0}}
Init == \E p \in Pars, r \in Rng, q \in {1, 4} :
    Begins("quantw", p, {<< <<0, Raw(3, 1, q, [k \in 1..3 |-> q * v[k]])>>, <<3, Raw(2, 1, 1, r)>> >> : v \in Some(8, 60, Vals(r))} \cup
                        {<< <<0, Raw(3, 1, q, <<r[1] * q, x, r[2] * q>>)>>, <<3, Raw(2, 1, 1, r)>> >> : x \in Some(5, 80, (r[1] * q)..(r[2] * q))} \cup
                        {<< <<1, Raw(3, 2, 1, Fifteenth(v[1]) \o Fifteenth(v[2]) \o Fifteenth(v[3]))>>, <<3, Raw(2, 1, 1, r)>> >> :
                           v \in Some(8, 100, IF p[3] = 1 THEN (-7..7) \X {-7, 0, 7} \X {-1, 1} ELSE (0..15) \X {0, 15} \X {1, 14})})
Next == Len(hist) = 0 /\ Goes(IF start[2] # InitRegs(kind, par)[2] THEN {Cm("deq", <<>>)} ELSE {Cm("qto", <<>>)} \cup
              (IF Elems(R(0)) = {R(0).v[1]} THEN {} ELSE {Cm("q", <<>>)}))
Top(k) == R(1).v[2 * k - 1]
Low(k) == R(1).v[2 * k]
Leq(i, j) == Top(i) < Top(j) \/ (Top(i) = Top(j) /\ Low(i) <= Low(j))
Maxi == IF par[3] = 1 THEN <<32767, 65535>> ELSE <<65535, 65535>>
Law == Done =>
    /\ Only(CASE Last.op = "qto" -> {1} [] Last.op = "q" -> {1, 3} [] Last.op = "deq" -> {2})
    /\ Last.op \in {"q", "qto"} =>
          LET x == R(0) r(k) == R(3).v[k] * x.q n(k) == x.v[k] * R(3).q w == r(2) - r(1) IN
          /\ \A i, j \in 1..3 : x.v[i] <= x.v[j] => Leq(i, j)
          /\ \A k \in 1..3 :
                /\ Low(k) \in 0..65535
                /\ IF par[3] = 1 THEN Top(k) \in -32768..32767 ELSE Top(k) \in 0..65535
                /\ n(k) >= r(2) => <<Top(k), Low(k)>> = Maxi
                /\ (n(k) <= r(1) /\ par[3] = 0) => <<Top(k), Low(k)>> = <<0, 0>>
                /\ (n(k) = r(1) /\ par[3] = 1) => <<Top(k), Low(k)>> = <<-32768, 1>>
                /\ (n(k) < r(1) /\ par[3] = 1) => <<Top(k), Low(k)>> = <<-32768, 0>>
                /\ (2 * n(k) = r(1) + r(2)) => <<Top(k), Low(k)>> = IF par[3] = 1 THEN <<0, 0>> ELSE <<32768, 0>>
                \* linear: the top half is, within one, the 65536th of the whole
                /\ (n(k) >= r(1) /\ n(k) <= r(2)) =>
                      Near1(2 * w * Top(k), (IF par[3] = 1 THEN 2 * n(k) - r(1) - r(2) ELSE 2 * (n(k) - r(1))) * 65535, 4 * w)
    /\ Last.op = "deq" =>
          LET d == R(2) g == d.q \div R(3).q w == V(R(3), 1) - V(R(3), 0) IN
          /\ \A k \in 1..3 : V(R(3), 0) * g <= d.v[k] /\ d.v[k] <= V(R(3), 1) * g
          /\ \A i, j \in 1..3 : Leq(i, j) => d.v[i] <= d.v[j]
          /\ \A i, j \in 1..3 : Near1((d.v[i] - d.v[j]) * 65535, (Top(i) - Top(j)) * g * w, g * w)
Emit == Export(Done)
=============================================================================
