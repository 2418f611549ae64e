------------------------------ MODULE SpecMisc ------------------------------
(***************************************************************************)
(* Low-pass filter, QR decomposition, matrix fillers, version.             *)
(***************************************************************************)
EXTENDS Machine

----------------------------------------------------------------------------
(* Filter machine "lowpass", par = <<window, dimension>>: two filters.     *)
(* Registers: 0 the next value, 1, 2 the filtered values.                  *)
(* aux: w  the windows, latest value first; f  the smoothing factors       *)

LowpassInit(p) == << ZeroM(p[2], 1), ZeroM(p[2], 1), ZeroM(p[2], 1) >>
LowpassAux == [w |-> << <<>>, <<>> >>, f |-> << <<1, 2>>, <<1, 2>> >>]

\* starting with the latest value, the value of age j replaces the fraction
\* (n / d)^j of the average
RECURSIVE Smooth(_, _, _, _)
Smooth(w, n, d, j) ==
    IF j = 0 THEN w[1]
    ELSE AddM(ScaleM(Smooth(w, n, d, j - 1), Pow(d, j) - Pow(n, j), Pow(d, j)),
              ScaleM(w[j + 1], Pow(n, j), Pow(d, j)))
FilterNew(i, n, d) ==
    /\ Set(i, ZeroM(par[2], 1)) /\ out' = Void /\ UNCHANGED <<kind, par>>
    /\ aux' = [aux EXCEPT !.w[i] = <<>>, !.f[i] = <<n, d>>]
Whole(m) == Raw(m.r, m.c, 1, [k \in 1..Len(m.v) |-> m.v[k] \div m.q])
FilterAdd(i, v) ==
    LET w == SubSeq(<<v>> \o aux.w[i], 1, Min2(par[1], Len(aux.w[i]) + 1))
        x == Smooth(w, aux.f[i][1], aux.f[i][2], Len(w) - 1)
    IN /\ Set(i, x) /\ out' = RetV(x) /\ UNCHANGED <<kind, par>>
       /\ aux' = [aux EXCEPT !.w[i] = w]
FilterFactor(i, n, d) == /\ aux' = [aux EXCEPT !.f[i] = <<n, d>>]
                         /\ out' = Void /\ UNCHANGED <<kind, par, regs>>
FilterGet(i) == Query(RetV(R(i)))
FilterCopy(i, j) == /\ Set(i, R(j)) /\ out' = Void /\ UNCHANGED <<kind, par>>
                    /\ aux' = [aux EXCEPT !.w[i] = aux.w[j], !.f[i] = aux.f[j]]

StepLowpass(c) == LET a == c.a IN
    CASE c.op = "new" -> FilterNew(a[1], a[2], a[3])
      [] c.op = "add" -> FilterAdd(a[1], R(0))
      \* the filtered value is added again (only while it is an integer)
      [] c.op = "own" -> FilterAdd(a[1], Whole(R(a[1])))
      [] c.op = "sf"  -> FilterFactor(a[1], a[2], a[3])
      [] c.op = "get" -> FilterGet(a[1])
      [] c.op = "cp"  -> FilterCopy(a[1], a[2])

----------------------------------------------------------------------------
(* QR machine "qr", par = <<M, N>>, M >= N.  Registers: 0 the MxN matrix A *)
(* of full rank, 1 Q (MxM, unused columns zero), 2 R (NxN).  The inputs    *)
(* have a decomposition with rational Q and integer R; it is unique.       *)

QrInit(p) == << Fresh(p[1], p[2]), IdM(p[1]), IdM(p[2]) >>

\* column vector in lowest terms
Lowest(m) == LET g == Gcd(GcdAll(m.v, Len(m.v)), m.q) IN
    Raw(m.r, m.c, m.q \div g, [k \in 1..Len(m.v) |-> m.v[k] \div g])
\* integer coefficient of the projection of a on the unit vector u
Coef(u, a) == DotN(u, a) \div (u.q * a.q)
RECURSIVE Residue(_, _, _)
Residue(v, us, k) == IF k = 0 THEN v
    ELSE LET u == us[k] w == Residue(v, us, k - 1)
         IN Lowest(SubM(w, ScaleM(u, Coef(u, v), 1)))
LengthOf(v) == Sqrt(DotN(v, v)) \div v.q
RECURSIVE Ortho(_, _)
Ortho(a, j) == IF j = 0 THEN <<>>
    ELSE LET us == Ortho(a, j - 1)
             v == Residue(Lowest(ColOf(a, j - 1)), us, j - 1)
         IN Append(us, Lowest(ScaleM(v, 1, LengthOf(v))))
QrOf(a, m, n) ==
    LET us == Ortho(a, n)
        q == LcmAll([k \in 1..n |-> us[k].q], n)
    IN << Mk(m, m, q, LAMBDA i, j : IF j >= n THEN 0 ELSE V(us[j + 1], i) * (q \div us[j + 1].q)),
          Mk(n, n, 1, LAMBDA i, j :
             IF i > j THEN 0
             ELSE Coef(us[i + 1], Lowest(ColOf(a, j)))) >>
StepQr(c) ==
    CASE c.op = "qr" -> LET d == QrOf(R(0), par[1], par[2]) IN
        Set2(1, d[1], 2, d[2]) /\ out' = Void /\ Frame

----------------------------------------------------------------------------
(* Filler machine "filler", par = <<M, N, P>>: cosine bases and random     *)
(* numbers of an MxN matrix, an MxM matrix and a vector of P.  The results *)
(* are irrational or random: the command carries the observed numbers, in  *)
(* units of 1 / Unit (1 / Fine), and the action tells which ones are possible.        *)
(* aux: s, p  seed and position in the random sequence; memo  the numbers  *)
(* seen, by seed and position                                              *)

Unit == 16384
Fine == 536870912  \* 2^29, for the random numbers
FillerAux == [s |-> -1, p |-> 0, memo |-> <<>>]

D_(s, n, r, c) == s[r * n + c + 1]
Close(x, y, t) == Abs(x - y) <= t
\* The square cosine basis is characterized by: orthonormal rows; row 0
\* constant; row r starts positive, changes its sign r times and, continued
\* symmetrically at both ends, is an eigenvector of the sum of neighbours.
SignChanges(row) ==
    LET nz == SelectSeq(row, LAMBDA x : Abs(x) > 3)
    IN Cardinality({k \in 1..(Len(nz) - 1) : Sgn(nz[k]) # Sgn(nz[k + 1])})
CosineBasis(s, m) ==
    LET D(r, c) == D_(s, m, r, c)
        Around(r, c) == D(r, Max2(c - 1, 0)) + D(r, Min2(c + 1, m - 1))
    IN /\ \A r \in 0..(m - 1), t \in 0..(m - 1) :
             Close(SumR(LAMBDA c : D(r, c) * D(t, c), 0, m - 1), IF r = t THEN Unit * Unit ELSE 0, 4 * Unit)
       /\ \A c \in 0..(m - 1) : Close(D(0, c), D(0, 0), 1)
       /\ \A r \in 0..(m - 1) :
             /\ D(r, 0) > 0
             /\ SignChanges([c \in 1..m |-> D(r, c - 1)]) = r
             /\ \A c \in 0..(m - 1) : Close(Around(r, c) * D(r, 0), Around(r, 0) * D(r, c), 8 * Unit)
\* the MxN basis has the same columns, continued symmetrically
Continued(s, t, m, n) == \A r \in 0..(m - 1), c \in 0..(n - 1) :
    Close(D_(s, n, r, c), D_(t, m, r, IF c < m THEN c ELSE 2 * m - 1 - c), 1)
Dct(v) == LET m == par[1] n == par[2] IN
    /\ CosineBasis(From(v, m * n + 1), m)
    /\ Continued(SubSeq(v, 1, m * n), From(v, m * n + 1), m, n)
    /\ out' = Void /\ UNCHANGED <<kind, par, regs, aux>>
\* random numbers in [-1, 1], a function of seed and position only
Random(seed, v) ==
    LET s == IF seed >= 0 THEN seed ELSE aux.s
        p == IF seed >= 0 THEN 0 ELSE aux.p
        old == {e \in {aux.memo[k] : k \in 1..Len(aux.memo)} : e[1] = s}
        At(k) == {e[3] : e \in {x \in old : x[2] = p + k}}
    IN /\ \A k \in 1..Len(v) : Abs(v[k]) <= Fine /\ \A x \in At(k) : Close(x, v[k], 4)
       /\ Len(v) < 4 \/ Cardinality({v[k] : k \in 1..Len(v)}) > 1
       /\ aux' = [s |-> s, p |-> p + Len(v),
                  memo |-> aux.memo \o SelectSeq([k \in 1..Len(v) |-> <<s, p + k, v[k]>>], LAMBDA e : At(e[2] - p) = {})]
       /\ out' = Void /\ UNCHANGED <<kind, par, regs>>
\* sixty random numbers spread over the interval
Spread == /\ \/ Len(aux.memo) < 60
             \/ (\E k \in 1..Len(aux.memo) : aux.memo[k][3] < -(Fine \div 2)) /\ (\E k \in 1..Len(aux.memo) : aux.memo[k][3] > Fine \div 2)
          /\ out' = Void /\ UNCHANGED <<kind, par, regs, aux>>

StepFiller(c) ==
    CASE c.op = "dct"  -> Dct(c.a)
      [] c.op = "rand" -> Random(c.a[2], From(c.a, 3))
      [] c.op = "spread" -> Spread

----------------------------------------------------------------------------
(* Version machine "version", par = <<major, minor, patch>>                *)

Newer(a, b) == \/ a[1] > b[1]
               \/ a[1] = b[1] /\ a[2] > b[2]
               \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] > b[3]
StepVersion(c) ==
    CASE c.op = "num" -> Query(RetI(par))
      [] c.op = "cmp" -> Query(RetI(<<Bool(Newer(par, c.a)), Bool(~Newer(c.a, par)),
                                      Bool(Newer(c.a, par)), Bool(~Newer(par, c.a))>>))

----------------------------------------------------------------------------
(* Utility machine "util", par = <<P>>.  Registers: 0, 1 vectors of P,     *)
(* 2 result vector, 3 4x4 matrix, 4, 5 vectors of 3.                       *)

UtilInit(p) == << ZeroM(p[1], 1), ZeroM(p[1], 1), ZeroM(p[1], 1), IdM(4), ZeroM(3, 1), ZeroM(3, 1) >>

\* component-wise, f = 0 minimum, 1 maximum
Extreme(a, b, f) == LET q == Lcm(a.q, b.q) x == Over(a, q) y == Over(b, q) IN
    Raw(a.r, 1, q, [k \in 1..a.r |-> IF f = 0 THEN Min2(x.v[k], y.v[k]) ELSE Max2(x.v[k], y.v[k])])
\* (u, 1) (v, 1)^T
TensorH(u, v) == LET h(m, i) == IF i = 3 THEN m.q ELSE V(m, i) IN
    Mk(4, 4, u.q * v.q, LAMBDA i, j : h(u, i) * h(v, j))
\* the named types: rows, columns (0: vector, -1: quaternion, box, ...), size
\* and kind of an element (0 floating point, 1 signed, 2 unsigned)
NamedType == << <<3, 3, 8, 0>>, <<4, 4, 8, 0>>, <<3, 3, 4, 0>>, <<4, 4, 4, 0>>,
            <<2, 0, 4, 1>>, <<3, 0, 4, 1>>, <<4, 0, 4, 1>>, <<2, 0, 4, 2>>, <<3, 0, 4, 2>>, <<4, 0, 4, 2>>,
            <<3, 0, 8, 0>>, <<4, 0, 8, 0>>, <<2, 0, 4, 0>>, <<3, 0, 4, 0>>, <<4, 0, 4, 0>>, <<3, 0, 1, 2>>, <<4, 0, 1, 2>>,
            <<4, -1, 4, 0>>, <<4, -1, 8, 0>>, <<6, -1, 4, 0>>, <<6, -1, 8, 0>>, <<6, -1, 4, 0>>, <<6, -1, 8, 0>> >>
StepUtil(c) == LET a == c.a IN
    CASE c.op = "ext"  -> Write(2, Extreme(R(a[1]), R(a[2]), a[3]))
      [] c.op = "zero" -> Write(a[1], ZeroM(par[1], 1))
      [] c.op = "manh" -> Query(RetQ(R(a[1]).q, <<SumR(LAMBDA k : Abs(V(R(a[1]), k)), 0, par[1] - 1)>>))
      [] c.op = "tens" -> Write(3, TensorH(R(4), R(5)))
      [] c.op = "osg"  -> Write(a[1], Raw(3, 1, 1, From(a, 2)))
      \* n and n + k 2^-25 are equal within the precision of a float, 2^-23
      [] c.op = "eqf"  -> Query(RetI(<<Bool(Abs(a[2]) < 4)>>))
      [] c.op = "eqi"  -> Query(RetI(<<Bool(a[1] = a[2])>>))
      [] c.op = "sq"   -> Query(RetI(<<a[1] * a[1]>>))
      \* the length of (a, b), at any scale
      [] c.op = "pyth" -> Query(RetI(<<Sqrt(a[1] * a[1] + a[2] * a[2])>>))
      [] c.op = "sign" -> Query(RetI(<<IF a[2] >= 0 THEN Abs(a[1]) ELSE -Abs(a[1])>>))
      [] c.op = "absc" -> Query(RetI(<<Bool(Abs(a[1]) < Abs(a[2])), Bool(Abs(a[1]) > Abs(a[2]))>>))
      [] c.op = "type" -> Query(RetI(NamedType[a[1] + 1]))
=============================================================================
