----------------------------- MODULE MCVersion ------------------------------
(* The order of versions is the one of the numbers they spell.             *)
EXTENDS MC

Init == \E p \in {<<1, 9, 2>>, <<0, 0, 0>>, <<2, 99, 99>>} : Begins("version", p, {<<>>})
Nums(x) == {x - 1, x, x + 1, x + 10} \cap Nat
Next == Len(hist) = 0 /\ Goes({Cm("num", <<>>)} \cup {Cm("cmp", <<a, b, c>>) : a \in Nums(par[1]), b \in Nums(par[2]), c \in Nums(par[3])})
Spell(v) == v[1] * 1000000 + v[2] * 1000 + v[3]
Law == Done => /\ Last.op = "num" => out.v = par
               /\ Last.op = "cmp" => LET x == Spell(par) y == Spell(Last.a) IN out.v = <<Bool(x > y), Bool(x >= y), Bool(x < y), Bool(x <= y)>>
Emit == Export(Done)
=============================================================================
