------------------------------ MODULE MCStream ------------------------------
(* Streams and files: first in first out, read after write; what is        *)
(* printed parses back to the numbers.                                     *)
EXTENDS MC

Fp == <<2, 2, 3, 1>>
Ip == <<3, 1, 2, 0>>
Num == {-12345, -10, 0, 1, 7, 100, 99999}
Rat == {-321, -6, -1, 0, 1, 2, 3, 50, 4000}
Qs(p) == IF p[4] = 1 THEN {1, 2, 4} ELSE {1}
MatsQ(r, c, q) == {Raw(r, c, q, s) : s \in Some(10, 60, [1..(r * c) -> IF q = 1 THEN Num ELSE Rat])}
Starts(p) == {<< <<0, a>>, <<1, b>>, <<2, c>>, <<3, Raw(4, 1, 1, d)>>, <<4, Raw(6, 1, 1, d \o <<9, -8>>)>> >> :
    a \in Some(5, 30, UNION {MatsQ(p[1], p[2], q) : q \in Qs(p)}), b \in Some(2, 6, MatsQ(p[1], p[2], 1)),
    c \in Some(3, 8, UNION {MatsQ(p[3], 1, q) : q \in Qs(p)}), d \in {<<1, -2, 0, 30>>, <<-4, 0, 9, 5>>}}
Init == \E p \in {Fp, Ip} : Begins("stream", p, Starts(p))
Ser == {Cm("ws", <<i>>) : i \in 0..2}
Rd == {Cm("rs", <<i>>) : i \in {j \in 0..2 : Len(aux.st) >= Size(R(j))}}
Wr == {Cm("wraw", <<i, n, d>>) : i \in 0..1, n \in 0..6, d \in {0, 3}}
Rr == {Cm("rraw", <<i, n, d>>) : i \in 0..1, n \in 0..6, d \in 0..6}
Tr == {Cm("trc", <<n, d, k>>) : n \in 0..6, d \in 0..5, k \in {0, 1, 3, 5}}
Has(n, d) == d # 6 /\ aux.f[File(d, n)] # <<>>
Pr == {Cm("prm", <<0>>), Cm("prm", <<1>>), Cm("prv", <<>>), Cm("prq", <<>>), Cm("prf", <<>>), Cm("prb", <<>>), Cm("csv", <<0, 0, 0>>)}
Fm == {Cm("fmt", <<p, f>>) : p \in {3, 6}, f \in {0, 1, 2, 5, 16}}
Next == CASE Len(hist) = 0 -> Goes(Ser \cup Some(3, 28, Wr) \cup Pr \cup Some(2, 9, Fm))
          [] Last.op = "csv" -> FALSE
          [] Len(hist) \in 1..3 /\ hist[1].op = "ws" -> Goes(Some(3, 6, Ser \cup Rd))
          [] Len(hist) = 1 /\ hist[1].op = "wraw" -> Goes({Cm("wraw", <<1, n, d>>) : n \in Some(2, 7, 0..6), d \in {0, 4}})
          [] Len(hist) = 2 /\ hist[1].op = "wraw" -> Goes(Some(20, 100, Rr) \cup {c \in Some(12, 30, Tr) : Has(c.a[1], c.a[2])})
          [] Last.op = "trc" -> Goes({Cm("rraw", <<0, n, Last.a[2]>>) : n \in Some(2, 7, 0..6) \cup {Last.a[1]}} \cup
                                      {Cm("wraw", <<0, Last.a[1], Last.a[2]>>)})
          [] Len(hist) = 1 /\ hist[1].op = "fmt" -> Goes(Pr \ {Cm("csv", <<0, 0, 0>>)})
          [] Len(hist) <= 2 /\ Last.op \in {"prm", "prv", "prq", "prf", "prb"} -> Goes({Cm("fmts", <<>>)})
          [] OTHER -> FALSE
\* the numbers in a text, in hundredths
Digit(c) == c \in 48..57
RECURSIVE Scan(_, _, _, _, _)
Scan(t, acc, neg, dec, on) ==
    LET Num_ == IF on THEN <<(IF neg THEN -1 ELSE 1) * (IF dec <= 0 THEN acc * 100 ELSE IF dec = 1 THEN acc * 10 ELSE acc)>> ELSE <<>> IN
    IF t = <<>> THEN Num_
    ELSE LET c == Head(t) s == Tail(t) IN
         IF Digit(c) THEN Scan(s, acc * 10 + (c - 48), neg, IF dec >= 0 THEN dec + 1 ELSE dec, TRUE)
         ELSE IF c = 46 THEN Scan(s, acc, neg, 0, on)
         ELSE Num_ \o Scan(s, 0, c = 45, -1, FALSE)
Numbers(t) == Scan(t, 0, FALSE, -1, FALSE)
Hundred(m) == [k \in 1..Len(m.v) |-> m.v[k] * (100 \div m.q)]
Exact(m) == \A k \in 1..Len(m.v) : Abs(m.v[k]) <= 99999 /\ (m.q = 1 \/ Abs(m.v[k]) < 400)
Rows(m) == [k \in 1..Len(m.v) |-> E(m, (k - 1) \div m.c, (k - 1) % m.c) * (100 \div m.q)]
\* everything written so far, and everything read so far
WrittenBy(c, rs) == IF c.op = "ws" THEN Pairs(rs[c.a[1] + 1]) ELSE <<>>
\* the registers before command k of the history, replayed by substitution
RECURSIVE At(_), Sent(_), Took(_)
At(k) == IF k = 1 THEN start ELSE LET rs == At(k - 1) c == hist[k - 1] IN
    IF c.op # "rs" THEN rs
    ELSE LET n == Len(Sent(k - 1)) used == Took(k - 1)
             z == SubSeq(Sent(k - 1), used + 1, used + Size(rs[c.a[1] + 1])) IN
         [rs EXCEPT ![c.a[1] + 1] = Raw(rs[c.a[1] + 1].r, rs[c.a[1] + 1].c, 4, [j \in 1..Len(z) |-> z[j][1] * (4 \div z[j][2])])]
Sent(k) == IF k = 1 THEN <<>> ELSE Sent(k - 1) \o WrittenBy(hist[k - 1], At(k - 1))
Took(k) == IF k = 1 THEN 0 ELSE Took(k - 1) + (IF hist[k - 1].op = "rs" THEN Size(start[hist[k - 1].a[1] + 1]) ELSE 0)
SameM(x, y) == \A k \in 1..Len(x.v) : x.v[k] * y.q = y.v[k] * x.q
Writes(n, d) == {k \in 1..(Len(hist) - 1) : d # 6 /\ hist[k].op = "wraw" /\ File(hist[k].a[3], hist[k].a[2]) = File(d, n)}
LastWrite(n, d) == hist[SetMax(Writes(n, d))].a[1]
KeptPart(n, d, size) == LET ks == {k \in 1..(Len(hist) - 1) : hist[k].op = "trc" /\ File(hist[k].a[2], hist[k].a[1]) = File(d, n)} IN
    IF ks = {} THEN size ELSE hist[SetMax(ks)].a[3]
\* the elements in the order in which they are stored
Column(m) == [k \in 1..Size(m) |-> <<E(m, (k - 1) % m.r, (k - 1) \div m.r), m.q>>]
EqualQ(x, y) == x[1] * y[2] = y[1] * x[2]
Law == Done => LET c == Last a == c.a IN
    /\ Only(CASE c.op \in {"rs", "rraw"} -> {a[1]} [] OTHER -> {})
    /\ c.op = "rs" => SameM(R(a[1]), At(Len(hist) + 1)[a[1] + 1])
    /\ c.op \in {"rs", "ws"} => Len(aux.st) = Len(Sent(Len(hist) + 1)) - Took(Len(hist) + 1)
    /\ c.op = "wraw" => out.v = <<IF a[3] = 6 THEN 0 ELSE start[a[1] + 1].r * start[a[1] + 1].c>>
    /\ c.op = "rraw" => LET old == Column(start[a[1] + 1]) new == Column(R(a[1])) IN
        IF Writes(a[2], a[3]) = {} THEN new = old
        ELSE LET f == Column(start[LastWrite(a[2], a[3]) + 1]) n == KeptPart(a[2], a[3], Len(old)) IN
             \A k \in 1..Len(new) : EqualQ(new[k], IF k <= n THEN f[k] ELSE old[k])
    /\ (c.op = "prm" /\ out.v # <<>> /\ Exact(R(a[1]))) => Numbers(out.v) = Rows(R(a[1]))
    /\ (c.op = "csv" /\ Exact(R(a[1]))) => Numbers(out.v) = Rows(R(a[1]))
    /\ (c.op = "prv" /\ out.v # <<>> /\ Exact(R(2))) => Numbers(out.v) = Hundred(R(2))
    /\ (c.op = "prq" /\ out.v # <<>>) => Numbers(out.v) = Hundred(R(3))
    /\ (c.op = "prf" /\ out.v # <<>>) => Numbers(out.v) = Hundred(R(4))
    /\ (c.op = "prb" /\ out.v # <<>>) => Numbers(out.v) = Hundred(R(4))
    /\ c.op = "fmts" => LET f == IF hist[1].op = "fmt" THEN hist[1].a ELSE <<6, 0>> IN out.v = f \o <<0>>
Emit == Export(Done /\ (Len(hist) = 4 \/ Last.op \in {"fmts", "rraw", "csv"}))
=============================================================================
