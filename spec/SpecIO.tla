------------------------------- MODULE SpecIO -------------------------------
(***************************************************************************)
(* Quantization, text streams, raw files and printing.                     *)
(***************************************************************************)
EXTENDS Machine

----------------------------------------------------------------------------
(* Quantization machine "quant", par = <<M, N, lo, hi, int>>, lo..hi the    *)
(* range of the integer type, int = 1 if the elements are integers as well *)
(* (dequantized numbers are rounded).  Registers: 0 source, 1 quantized,   *)
(* 2 dequantized (all MxN), 3 the value range <<minimum, maximum>>.        *)

QuantInit(p) == << Fresh(p[1], p[2]), Fresh(p[1], p[2]), Fresh(p[1], p[2]), ZeroM(2, 1) >>

Steps == par[4] - par[3]
Signed == par[3] < 0
\* n / d, d > 0, rounded towards zero
Trunc(n, d) == Sgn(n) * (Abs(n) \div d)
\* the range is mapped linearly to the steps of the integer type, starting
\* at 0 or, for signed types, with its centre at 0; half a step is added
Quantized(m, rng) ==
    LET q == Lcm(m.q, rng.q)
        x == Over(m, q) lo == V(Over(rng, q), 0) hi == V(Over(rng, q), 1)
        Q(n) == IF Signed THEN (2 * n - lo - hi) * Steps + (hi - lo)
                ELSE 2 * (n - lo) * Steps + (hi - lo)
    IN Mk(m.r, m.c, 1, LAMBDA i, j : Clip(Trunc(Q(E(x, i, j)), 2 * (hi - lo)), par[3], par[4]))
\* the inverse mapping, limited to the range
Dequantized(m, rng) ==
    LET lo == V(rng, 0) hi == V(rng, 1) R_ == 2 * Steps
        L(n) == 2 * n * (hi - lo) + (IF Signed THEN (lo + hi) * Steps ELSE R_ * lo)
    IN IF par[5] = 1
       THEN Mk(m.r, m.c, 1, LAMBDA i, j : Clip((2 * L(E(m, i, j)) + R_) \div (2 * R_), lo, hi))
       ELSE Mk(m.r, m.c, R_ * rng.q, LAMBDA i, j : Clip(L(E(m, i, j)), R_ * lo, R_ * hi))

QuantizeTo == Write(1, Quantized(R(0), R(3)))
\* to the range of the elements, which is also returned
QuantizeOwn ==
    LET rng == Raw(2, 1, R(0).q, <<SetMin(Elems(R(0))), SetMax(Elems(R(0)))>>)
    IN Set2(1, Quantized(R(0), rng), 3, rng) /\ out' = Void /\ Frame
Dequantize == Write(2, Dequantized(R(1), R(3)))
\* the range of the register, element (i, j) far below or above of it
QuantizeFar(i, j, s) ==
    Write(1, SetE(Quantized(R(0), R(3)), i, j, IF s < 0 THEN par[3] ELSE par[4]))

StepQuant(c) ==
    CASE c.op = "qto" -> QuantizeTo
      [] c.op = "q"   -> QuantizeOwn
      [] c.op = "deq" -> Dequantize
      [] c.op = "far" -> QuantizeFar(c.a[1], c.a[2], c.a[3])
      [] c.op = "back" -> Write(0, R(2))

----------------------------------------------------------------------------
(* Quantization machine "quantw" for integer types of 32 bits, par =       *)
(* <<M, N, signed?>>, M # N.  An integer v is the pair <<h, l>> with       *)
(* v = 65536 h + l, 0 <= l < 65536.  Registers as above, 1 has two columns *)
(* for each of the matrix.                                                 *)

QuantWInit(p) == << Fresh(p[1], p[2]), ZeroM(p[1], 2 * p[2]), Fresh(p[1], p[2]), ZeroM(2, 1) >>

\* magnitudes are sequences of three digits to the base 65536 (Machine)
\* k (2^32 - 1), 0 <= k <= 32767
TimesSteps(k) == LET a == k * (Base - 1) b == a + (a \div Base) IN <<b \div Base, b % Base, a % Base>>
\* plus a small number, of either sign
Plus(x, n) == LET a == x[3] + n b == x[2] + (a \div Base) IN <<x[1] + (b \div Base), b % Base, a % Base>>
\* the pair of sign s and magnitude x, limited to the type
Limited(s, x) ==
    CASE par[3] = 0 /\ s < 0 -> <<0, 0>>
      [] par[3] = 0 /\ x[1] > 0 -> <<Base - 1, Base - 1>>
      [] par[3] = 1 /\ s >= 0 /\ (x[1] > 0 \/ x[2] >= Base \div 2) -> <<Base \div 2 - 1, Base - 1>>
      [] par[3] = 1 /\ s < 0 /\ (x[1] > 0 \/ x[2] >= Base \div 2) -> <<-(Base \div 2), 0>>
      [] s < 0 -> <<-x[2] - Bool(x[3] > 0), (Base - x[3]) % Base>>
      [] OTHER -> <<x[2], x[3]>>
QuantizedW(m, rng) ==
    LET q == Lcm(m.q, rng.q)
        x == Over(m, q) lo == V(Over(rng, q), 0) hi == V(Over(rng, q), 1) w == hi - lo
        Q(n) == LET k == IF par[3] = 1 THEN 2 * n - lo - hi ELSE 2 * (n - lo)
                IN Limited(Sgn(k), Over3(Plus(TimesSteps(Abs(k)), IF k < 0 THEN -w ELSE w), 2 * w))
    IN Mk(m.r, 2 * m.c, 1, LAMBDA i, j : Q(E(x, i, j \div 2))[1 + (j % 2)])
\* the fifteenths of the steps
Fifteenth(j) == IF j < 0 THEN <<j * 4369 - 1, Base + j * 4369>> ELSE <<j * 4369, j * 4369>>
DequantizedW(m, rng) ==
    LET lo == V(rng, 0) hi == V(rng, 1)
        J(h, l) == CHOOSE j \in -15..15 : Fifteenth(j) = <<h, l>>
    IN Mk(m.r, m.c \div 2, 30 * rng.q, LAMBDA i, j :
          Clip(2 * J(E(m, i, 2 * j), E(m, i, 2 * j + 1)) * (hi - lo) + (IF par[3] = 1 THEN 15 * (lo + hi) ELSE 30 * lo), 30 * lo, 30 * hi))

StepQuantW(c) ==
    CASE c.op = "qto" -> Write(1, QuantizedW(R(0), R(3)))
      [] c.op = "q"   -> LET rng == Raw(2, 1, R(0).q, <<SetMin(Elems(R(0))), SetMax(Elems(R(0)))>>)
                         IN Set2(1, QuantizedW(R(0), rng), 3, rng) /\ out' = Void /\ Frame
      [] c.op = "deq" -> Write(2, DequantizedW(R(1), R(3)))
      [] c.op = "far" -> LET m == QuantizedW(R(0), R(3)) p == Limited(c.a[3], <<1, 0, 0>>) IN
                         Write(1, SetE(SetE(m, c.a[1], 2 * c.a[2], p[1]), c.a[1], 2 * c.a[2] + 1, p[2]))

----------------------------------------------------------------------------
(* Stream machine "stream", par = <<M, N, P, floating point?>>.            *)
(* Registers: 0, 1 MxN matrices, 2 vector of P, 3 quaternion, 4 six        *)
(* numbers (a box or a frustum).                                           *)
(* aux: st   the numbers in the text stream that are not yet read, each    *)
(*           a pair <<numerator, denominator>>                             *)
(*      f    contents of the raw files; <<>>: does not exist               *)
(*      prec, fl   precision and format flags of the output stream; flags: *)
(*           adjustment + 4 * float format + 16 * (show sign)              *)

StreamInit(p) == << Fresh(p[1], p[2]), Fresh(p[1], p[2]), ZeroM(p[3], 1), ZeroM(4, 1), ZeroM(6, 1) >>
StreamAux == [st |-> <<>>, f |-> [i \in 1..10 |-> <<>>], prec |-> 6, fl |-> 0]

KeepRegs == UNCHANGED <<kind, par, regs>>
\* element k of a matrix in row order and in storage order
Pairs(m) == [k \in 1..Len(m.v) |-> <<m.v[k], m.q>>]
WriteStream(i) == /\ aux' = [aux EXCEPT !.st = @ \o Pairs(R(i))]
                  /\ out' = Void /\ KeepRegs
ReadStream(i) ==
    LET n == Size(R(i))
        s == SubSeq(aux.st, 1, n)
        q == LcmAll([k \in 1..n |-> s[k][2]], n)
    IN /\ Len(aux.st) >= n
       /\ Set(i, Raw(R(i).r, R(i).c, q, [k \in 1..n |-> s[k][1] * (q \div s[k][2])]))
       /\ aux' = [aux EXCEPT !.st = From(@, n + 1)]
       /\ out' = Void /\ UNCHANGED <<kind, par>>

\* directories "", ".", "./" and "d", "d/", "./d"; names "a", "a.raw", "b",
\* "b.raw", "draw", "x", "rawx": the extension is added if missing
File(dir, name) == 1 + (dir \div 3) * 5 + <<0, 0, 1, 1, 2, 3, 4>>[name + 1]
\* a file holds the first n elements of a matrix in storage order (and more,
\* if n exceeds its size); directory 6 does not exist: nothing is written.
\* Returned is the length of the file in elements.
WriteRaw(i, name, dir) ==
    /\ aux' = IF dir = 6 THEN aux ELSE [aux EXCEPT !.f[File(dir, name)] = <<R(i), Size(R(i))>>]
    /\ out' = RetI(<<IF dir = 6 THEN 0 ELSE Size(R(i))>>) /\ KeepRegs
\* ... is cut to n elements, or extended by other contents
Truncate(name, dir, n) ==
    LET f == aux.f[File(dir, name)] IN
    /\ f # <<>> /\ (n > f[2] => f[2] >= Size(f[1]))
    /\ aux' = [aux EXCEPT !.f[File(dir, name)] = <<@[1], n>>]
    /\ out' = Void /\ KeepRegs
\* the first n elements of f, the others of m
Overlay(m, f, n) ==
    LET q == Lcm(m.q, f.q) a == Over(m, q) b == Over(f, q) IN
    Raw(m.r, m.c, q, [k \in 1..Len(m.v) |->
        IF ((k - 1) % m.c) * m.r + ((k - 1) \div m.c) < n THEN b.v[k] ELSE a.v[k]])
\* without a file the matrix stays as it is
ReadRaw(i, name, dir) ==
    IF dir = 6 THEN Write(i, R(i))
    ELSE LET f == aux.f[File(dir, name)] IN
         Write(i, IF f = <<>> THEN R(i) ELSE IF f[2] >= Size(R(i)) THEN f[1] ELSE Overlay(R(i), f[1], f[2]))

RECURSIVE Digits(_)
Digits(n) == (IF n < 10 THEN <<>> ELSE Digits(n \div 10)) \o <<48 + (n % 10)>>
RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
\* f(1) ... f(n)
Cat(f(_), n) == LET g[k \in 0..n] == IF k = 0 THEN <<>> ELSE g[k - 1] \o f(k) IN g[n]
Pad(s) == Rep(32, 10 - Len(s)) \o s
\* n / d to the nearest integer, half to even
Nearest(n, d) == LET a == n \div d r == n % d IN
    IF 2 * r < d \/ (2 * r = d /\ a % 2 = 0) THEN a ELSE a + 1
\* n / q, q in 1, 2, 4, with p significant digits; needs no exponent
Decimal(n, q, p) ==
    LET x == Abs(n) * (100 \div q)
        int == Digits(x \div 100)
        dec == p - (IF x < 100 THEN 0 ELSE Len(int))
        h == IF dec >= 2 THEN x ELSE IF dec = 1 THEN 10 * Nearest(x, 10) ELSE 100 * Nearest(x, 100)
        fr == h % 100
    IN (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(h \div 100) \o
       (IF fr = 0 THEN <<>> ELSE IF fr % 10 = 0 THEN <<46, 48 + (fr \div 10)>>
        ELSE <<46, 48 + (fr \div 10), 48 + (fr % 10)>>)
\* the text of an element
Text(n, q, p) == IF par[4] = 0 THEN (IF n < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(n)) ELSE Decimal(n, q, p)
MatText(m) == Cat(LAMBDA i : <<124>> \o Cat(LAMBDA j : Pad(Text(E(m, i - 1, j - 1), m.q, 5)) \o <<32>>, m.c)
                             \o <<124, 10>>, m.r)
VecText(m) == <<91, 32>> \o Cat(LAMBDA i : Pad(Text(m.v[i], m.q, 5)) \o <<32>>, Len(m.v)) \o <<93>>
QuatText(m) == <<40>> \o Cat(LAMBDA i : Text(m.v[i], m.q, aux.prec) \o (IF i < 4 THEN <<44, 32>> ELSE <<>>), 4)
               \o <<41, 32>>
FrustumText(m) == <<91>> \o Cat(LAMBDA i : Pad(Text(m.v[i], m.q, 5)) \o (IF i < 6 THEN <<32>> ELSE <<>>), 6) \o <<93>>
BoxText(m) == VecText(Raw(3, 1, m.q, SubSeq(m.v, 1, 3))) \o <<32, 45, 32>> \o VecText(Raw(3, 1, m.q, SubSeq(m.v, 4, 6)))

\* the text is specified for the default number format
Printed(t) == Query(RetI(IF aux.fl < 4 THEN t ELSE <<>>))
\* ... and whatever is printed, the state of the stream stays the same
Format(p, f) == /\ aux' = [aux EXCEPT !.prec = p, !.fl = f]
                /\ out' = Void /\ KeepRegs
FormatState == Query(RetI(<<aux.prec, aux.fl, 0>>))

StepStream(c) == LET a == c.a IN
    CASE c.op = "ws"   -> WriteStream(a[1])
      [] c.op = "rs"   -> ReadStream(a[1])
      [] c.op = "wraw" -> WriteRaw(a[1], a[2], a[3])
      [] c.op = "rraw" -> ReadRaw(a[1], a[2], a[3])
      [] c.op = "trc"  -> Truncate(a[1], a[2], a[3])
      [] c.op = "fmt"  -> Format(a[1], a[2])
      [] c.op = "fmts" -> FormatState
      [] c.op = "prm"  -> Printed(MatText(R(a[1])))
      [] c.op = "prv"  -> Printed(VecText(R(2)))
      [] c.op = "prq"  -> Printed(QuatText(R(3)))
      [] c.op = "prf"  -> Printed(FrustumText(R(4)))
      [] c.op = "prb"  -> Printed(BoxText(R(4)))
      [] c.op = "csv"  -> Query(RetI(MatText(R(a[1])) \o <<10>>))
=============================================================================
