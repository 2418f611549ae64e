----------------------------- MODULE SpecMatrix -----------------------------
(***************************************************************************)
(* Matrices: storage and access paths, arithmetic, square matrices,        *)
(* structured products, reductions, conversions.                           *)
(***************************************************************************)
EXTENDS Machine

----------------------------------------------------------------------------
(* Storage machine "matstore", par = <<M, N, A, B>>.  Registers: 0, 1 are  *)
(* MxN matrices; 2 an M-vector; 3 an N-vector; 4 an AxB matrix; 5 a 1xN    *)
(* matrix; 6 an Mx1 matrix.                                                *)

StoreInit(p) ==
    << Fresh(p[1], p[2]), Fresh(p[1], p[2]), ZeroM(p[1], 1), ZeroM(p[2], 1),
       Fresh(p[3], p[4]), Fresh(1, p[2]), Fresh(p[1], 1) >>

\* load register d with the numbers s over q, element by element
Load(d, q, s) == Write(d, Raw(R(d).r, R(d).c, q, s))

In(m, i, j) == i >= 0 /\ i < m.r /\ j >= 0 /\ j < m.c
\* write the element (i, j) through one of the access paths
WriteEl(d, path, i, j, x) ==
    IF In(R(d), i, j) THEN Write(d, SetE(R(d), i, j, x * R(d).q)) ELSE Reject
ReadEl(d, path, i, j) ==
    IF In(R(d), i, j) THEN Query(RetQ(R(d).q, <<E(R(d), i, j)>>)) ELSE Reject
\* all elements through one path, in row-major order
ReadAll(d, path) == Query(RetV(R(d)))
\* elements in the documented (column-major) iteration order, and reversed
Iterate(d, rev) ==
    LET t == TransM(R(d)) n == Size(t) IN
    Query(RetQ(t.q, IF rev = 0 THEN t.v ELSE [k \in 1..n |-> t.v[n + 1 - k]]))
\* value increments x, x+1, ... written along the iteration order
Fill(d, form, x) == Write(d, Const(R(d).r, R(d).c, IF form = 2 THEN 0 ELSE x))
GetRow(d, i, form) ==
    IF i >= 0 /\ i < R(d).r
    THEN IF form = 2 THEN Write(5, RowOf(R(d), i))
         ELSE Write(3, AsCol(RowOf(R(d), i)))
    ELSE Reject
GetCol(d, j, form) ==
    IF j >= 0 /\ j < R(d).c
    THEN IF form = 2 THEN Write(6, ColOf(R(d), j)) ELSE Write(2, ColOf(R(d), j))
    ELSE Reject
SetRow(d, i, form) ==
    IF i >= 0 /\ i < R(d).r
    THEN Write(d, Paste(R(d), IF form = 1 THEN R(5) ELSE AsRow(R(3)), i, 0))
    ELSE Reject
SetCol(d, j, form) ==
    IF j >= 0 /\ j < R(d).c
    THEN Write(d, Paste(R(d), IF form = 1 THEN R(6) ELSE R(2), 0, j))
    ELSE Reject
SubFits(d, i, j) == /\ i >= 0 /\ j >= 0
                    /\ i + R(4).r <= R(d).r /\ j + R(4).c <= R(d).c
GetSub(d, i, j, form) ==
    IF SubFits(d, i, j) THEN Write(4, SubMat(R(d), R(4).r, R(4).c, i, j))
    ELSE Reject
SetSub(d, i, j, form) ==
    IF SubFits(d, i, j) THEN Write(d, Paste(R(d), R(4), i, j))
    ELSE RejectScrub(d)
Copy(d, s, form) == Write(d, R(s))
Swap(d, s) == Set2(d, R(s), s, R(d)) /\ out' = Void /\ Frame
\* assignment from an iterator range: stops at the end of either
SetRange(d, rowmajor, form, s) ==
    LET m == R(d) IN
    Write(d, Mk(m.r, m.c, m.q, LAMBDA i, j :
        LET k == IF rowmajor = 1 THEN i * m.c + j + 1 ELSE j * m.r + i + 1
        IN IF k <= Len(s) THEN s[k] * m.q ELSE E(m, i, j)))
\* assignment from a std::vector: rejected if it is too short
SetVec(d, s) ==
    IF Len(s) < Size(R(d)) THEN Reject
    ELSE Write(d, Raw(R(d).r, R(d).c, 1, SubSeq(s, 1, Size(R(d)))))
Dims(d) == Query(RetI(<<R(d).r, R(d).c, R(d).r * R(d).c>>))
\* == and != , both ways
Equal(d, s) == Query(RetI(LET b == Bool(Same(R(d), R(s)))
                          IN <<b, 1 - b, b, 1 - b>>))
\* equality within a tolerance t / 2, strict
Near(d, s, t, form) ==
    Query(RetI(<<Bool(\A k \in 1..Size(R(d)) :
                        2 * Abs(R(d).v[k] - R(s).v[k]) < t)>>))
\* equality up to the sign of whole rows / columns, within a strict tolerance
\* t / 2 if t > 0
SignEq(d, s, cols, t) ==
    LET L(m, i) == IF cols = 1 THEN ColOf(m, i).v ELSE AsCol(RowOf(m, i)).v
        Like(x, y, sg) == \A k \in 1..Len(x) : IF t = 0 THEN x[k] = sg * y[k] ELSE 2 * Abs(x[k] - sg * y[k]) < t
    IN Query(RetI(<<Bool(\A i \in 0..((IF cols = 1 THEN R(d).c ELSE R(d).r) - 1) :
                \E sg \in {-1, 1} : Like(L(R(d), i), L(R(s), i), sg))>>))

StepStore(c) == LET a == c.a IN
    CASE c.op = "wr"   -> WriteEl(a[1], a[2], a[3], a[4], a[5])
      [] c.op = "rd"   -> ReadEl(a[1], a[2], a[3], a[4])
      [] c.op = "all"  -> ReadAll(a[1], a[2])
      [] c.op = "iter" -> Iterate(a[1], a[2])
      [] c.op = "fill" -> Fill(a[1], a[2], a[3])
      [] c.op = "grow" -> GetRow(a[1], a[2], a[3])
      [] c.op = "gcol" -> GetCol(a[1], a[2], a[3])
      [] c.op = "srow" -> SetRow(a[1], a[2], a[3])
      [] c.op = "scol" -> SetCol(a[1], a[2], a[3])
      [] c.op = "gsub" -> GetSub(a[1], a[2], a[3], a[4])
      [] c.op = "ssub" -> SetSub(a[1], a[2], a[3], a[4])
      [] c.op = "cp"   -> Copy(a[1], a[2], a[3])
      [] c.op = "swap" -> Swap(a[1], a[2])
      [] c.op = "seti" -> SetRange(a[1], a[2], a[3], From(a, 4))
      [] c.op = "setv" -> SetVec(a[1], From(a, 2))
      [] c.op = "dims" -> Dims(a[1])
      [] c.op = "eq"   -> Equal(a[1], a[2])
      [] c.op = "near" -> Near(a[1], a[2], a[3], a[4])
      \* with an element that is not a number nothing is equal: ==, !=,
      \* equals (both ways, itself), up to the sign of columns and rows
      [] c.op = "nan"  -> Query(RetI(<<0, 1, 0, 0, 0, 0, 0, 0, 0>>))
      [] c.op = "sgeq" -> SignEq(a[1], a[2], a[3], a[4])

----------------------------------------------------------------------------
(* Arithmetic machine "matarith", par = <<M, N, P>>.  Registers: 0, 1, 2   *)
(* MxN; 3 NxP; 4 MxP; 5 NxM; 6 an N-vector; 7 an M-vector.                 *)

ArithInit(p) ==
    << Fresh(p[1], p[2]), Fresh(p[1], p[2]), Fresh(p[1], p[2]),
       Fresh(p[2], p[3]), Fresh(p[1], p[3]), Fresh(p[2], p[1]),
       ZeroM(p[2], 1), ZeroM(p[1], 1) >>

Add(d, a, b) == Write(d, AddM(R(a), R(b)))
Sub(d, a, b) == Write(d, SubM(R(a), R(b)))
Neg(d, a, form) == Write(d, NegM(R(a)))
AddIn(d, a) == Write(d, AddM(R(d), R(a)))
SubIn(d, a) == Write(d, SubM(R(d), R(a)))
\* += and -= of a scalar
Shift(d, form, k) == Write(d, ShiftM(R(d), IF form = 0 THEN k ELSE -k, 1))
Scale(d, a, form, k) == Write(d, ScaleM(R(a), k, 1))
Div(d, a, form, k) == Write(d, DivM(R(a), k, 1))
\* of integer types: rounded towards zero
IntDiv(d, a, form, k) == Write(d, TDivM(R(a), k))
SelfIntDiv(d, i, j) == Write(d, TDivM(R(d), E(R(d), i, j)))
\* scaled by its own element
SelfScale(d, i, j) == Write(d, LET m == R(d) IN
    Mk(m.r, m.c, m.q * m.q, LAMBDA x, y : E(m, x, y) * E(m, i, j)))
\* divided, increased and decreased by its own element
SelfDiv(d, i, j) == Write(d, LET m == R(d) IN
    DivM(Mk(m.r, m.c, 1, LAMBDA x, y : E(m, x, y)), E(m, i, j), 1))
SelfShift(d, i, j, form) == Write(d, LET m == R(d) e == E(m, i, j) IN
    Mk(m.r, m.c, m.q, LAMBDA x, y : E(m, x, y) + (IF form = 0 THEN e ELSE -e)))
Piece(d, a) == Write(d, PieceM(R(d), R(a)))
Mul(a, form) == Write(4, MulM(R(a), R(3)))
SqMul(d, a, b, form) == Write(d, MulM(R(a), R(b)))
SqMulIn(d, a) == Write(d, MulM(R(d), R(a)))
Transpose(a, form) == Write(5, TransM(R(a)))
TransposeBack(d, form) == Write(d, TransM(R(5)))
MatVec(a, form) == Write(7, MulM(R(a), R(6)))

StepArith(c) == LET a == c.a IN
    CASE c.op = "add"   -> Add(a[1], a[2], a[3])
      [] c.op = "sub"   -> Sub(a[1], a[2], a[3])
      [] c.op = "neg"   -> Neg(a[1], a[2], a[3])
      [] c.op = "addip" -> AddIn(a[1], a[2])
      [] c.op = "subip" -> SubIn(a[1], a[2])
      [] c.op = "shift" -> Shift(a[1], a[2], a[3])
      [] c.op = "muls"  -> Scale(a[1], a[2], a[3], a[4])
      [] c.op = "divs"  -> Div(a[1], a[2], a[3], a[4])
      [] c.op = "divi"  -> IntDiv(a[1], a[2], a[3], a[4])
      [] c.op = "sdivi" -> SelfIntDiv(a[1], a[2], a[3])
      [] c.op = "self"  -> SelfScale(a[1], a[2], a[3])
      [] c.op = "selfd" -> SelfDiv(a[1], a[2], a[3])
      [] c.op = "selfs" -> SelfShift(a[1], a[2], a[3], a[4])
      [] c.op = "pw"    -> Piece(a[1], a[2])
      [] c.op = "mul"   -> Mul(a[1], a[2])
      [] c.op = "sqm"   -> SqMul(a[1], a[2], a[3], a[4])
      [] c.op = "sqip"  -> SqMulIn(a[1], a[2])
      [] c.op = "tr"    -> Transpose(a[1], a[2])
      [] c.op = "trb"   -> TransposeBack(a[1], a[2])
      [] c.op = "mv"    -> MatVec(a[1], a[2])

----------------------------------------------------------------------------
(* Square machine "matsquare", par = <<M>>.  Registers: 0, 1 MxM matrices; *)
(* 2 (M-1)x(M-1) (1x1 if M = 1); 3 an M-vector.                                         *)

SquareInit(p) ==
    << Fresh(p[1], p[1]), Fresh(p[1], p[1]), Fresh(Max2(1, p[1] - 1), Max2(1, p[1] - 1)),
       ZeroM(p[1], 1) >>

Det(a, form) == Query(RetQ(Pow(R(a).q, R(a).r), <<DetN(R(a))>>))
Minor(a, i, j) ==
    IF In(R(a), i, j)
    THEN WriteRet(2, Cut(R(a), i, j), RetI(<<MinorN(R(a), i, j)>>))
    ELSE RejectScrub(2)
Cofactors(d, a) == Write(d, CofM(R(a)))
Adjugate(d, a) == Write(d, AdjM(R(a)))
\* inverse with tolerance tn (tn < 0: the default, less than 1).  Refused iff
\* the absolute determinant is not above the tolerance; the destination is
\* then not specified
Inverse(d, a, tn, form) ==
    LET det == DetN(R(a)) IN
    IF Abs(det) > Max2(tn, 0)
    THEN WriteRet(d, InvM(R(a)), RetI(<<1>>))
    ELSE WriteRet(d, ZeroM(R(d).r, R(d).c), RetI(<<0>>))
\* no leading principal minor is negative, up to the third
PosDef(a, form) ==
    LET m == R(a) k == Min2(m.r, 3) IN
    Query(RetI(<<Bool(\A n \in 1..k : DetN(SubMat(m, n, n, 0, 0)) >= 0)>>))
Diagonal(d) == Write(d, DiagM(R(3)))
\* identity(m), Matrix::IDENTITY, default constructor
Identity(d, form) == Write(d, IdM(R(d).r))
Covariance(d, a) == Write(d, MulM(R(a), TransM(R(a))))

StepSquare(c) == LET a == c.a IN
    CASE c.op = "det"   -> Det(a[1], a[2])
      [] c.op = "minor" -> Minor(a[1], a[2], a[3])
      [] c.op = "cof"   -> Cofactors(a[1], a[2])
      [] c.op = "adj"   -> Adjugate(a[1], a[2])
      [] c.op = "inv"   -> Inverse(a[1], a[2], a[3], a[4])
      [] c.op = "posd"  -> PosDef(a[1], a[2])
      [] c.op = "diag"  -> Diagonal(a[1])
      [] c.op = "ident" -> Identity(a[1], a[2])
      [] c.op = "scov"  -> Covariance(a[1], a[2])

----------------------------------------------------------------------------
(* Products machine "matprod", par = <<M, N, A, B>>.  Registers: 0 X MxN;  *)
(* 1 G AxB; 2 (M A)x(N B); 3 H AxN; 4 (M A)xN; 5 (M+A)x(N+B); 6 M-vector;  *)
(* 7 N-vector; 8 MxM; 9 (M div 2)xN; 10 Mx(N div 2).                       *)

ProdInit(p) == LET m == p[1] n == p[2] a == p[3] b == p[4] IN
    << Fresh(m, n), Fresh(a, b), Fresh(m * a, n * b), Fresh(a, n),
       Fresh(m * a, n), Fresh(m + a, n + b), ZeroM(m, 1), ZeroM(n, 1),
       Fresh(m, m), Fresh(Max2(1, m \div 2), n), Fresh(m, Max2(1, n \div 2)) >>

Kron == Write(2, KronM(R(0), R(1)))
Khatri == Write(4, KhatM(R(0), R(3)))
DirectSum == Write(5, DSumM(R(0), R(1)))
Tensor == Write(0, OuterM(R(6), R(7)))
Cov == Write(8, MulM(R(0), TransM(R(0))))
Convolve == Write(0, ConvM(R(0), R(1)))
\* sums of consecutive pairs of rows / columns; an odd last one is dropped
SumRows == Write(9, Mk(R(0).r \div 2, R(0).c, R(0).q, LAMBDA i, j :
                        E(R(0), 2 * i, j) + E(R(0), 2 * i + 1, j)))
SumCols == Write(10, Mk(R(0).r, R(0).c \div 2, R(0).q, LAMBDA i, j :
                        E(R(0), i, 2 * j) + E(R(0), i, 2 * j + 1)))
ColumnSums == Write(7, Mk(R(0).c, 1, R(0).q, LAMBDA j, k :
                        SumR(LAMBDA i : E(R(0), i, j), 0, R(0).r - 1)))

StepProd(c) ==
    CASE c.op = "kron" -> Kron
      [] c.op = "khat" -> Khatri
      [] c.op = "dsum" -> DirectSum
      [] c.op = "tens" -> Tensor
      [] c.op = "cov"  -> Cov
      [] c.op = "conv" -> Convolve
      [] c.op = "srws" -> SumRows
      [] c.op = "scls" -> SumCols
      [] c.op = "csum" -> ColumnSums

----------------------------------------------------------------------------
(* Reductions machine "matreduce", par = <<M, N>>. Register 0 is MxN.      *)

ReduceInit(p) == << Fresh(p[1], p[2]) >>
AbsElems(m) == {Abs(x) : x \in Elems(m)}
\* minimum, maximum, minimal and maximal absolute value, sum, non-zeros
MinOf(d)    == Query(RetQ(R(d).q, <<SetMin(Elems(R(d)))>>))
MaxOf(d)    == Query(RetQ(R(d).q, <<SetMax(Elems(R(d)))>>))
AbsMinOf(d) == Query(RetQ(R(d).q, <<SetMin(AbsElems(R(d)))>>))
AbsMaxOf(d) == Query(RetQ(R(d).q, <<SetMax(AbsElems(R(d)))>>))
SumOf(d)    == Query(RetQ(R(d).q, <<SumN(R(d))>>))
NonZeros(d) == Query(RetI(<<CountN(R(d), LAMBDA x : x # 0)>>))
Above(d, t) == Query(RetI(<<CountN(R(d), LAMBDA x : Abs(x) > t)>>))
Threshold(d, t) == Write(d, MapM(R(d), LAMBDA x : IF Abs(x) <= t THEN 0 ELSE x))
\* Frobenius norm: sign and square
Frobenius(d) ==
    LET s == SumR(LAMBDA k : R(d).v[k] * R(d).v[k], 1, Size(R(d)))
    IN Query(RetI(<<Sgn(s), s>>))
\* p-norm: sign and p-th power
PNorm(d, p) ==
    LET s == SumR(LAMBDA k : Pow(Abs(R(d).v[k]), p), 1, Size(R(d)))
    IN Query(RetI(<<Sgn(s), s>>))

StepReduce(c) == LET a == c.a IN
    CASE c.op = "min"  -> MinOf(a[1])
      [] c.op = "max"  -> MaxOf(a[1])
      [] c.op = "amin" -> AbsMinOf(a[1])
      [] c.op = "amax" -> AbsMaxOf(a[1])
      [] c.op = "sum"  -> SumOf(a[1])
      [] c.op = "nnz"  -> NonZeros(a[1])
      [] c.op = "nnzt" -> Above(a[1], a[2])
      [] c.op = "thr"  -> Threshold(a[1], a[2])
      [] c.op = "frob" -> Frobenius(a[1])
      [] c.op = "pnor" -> PNorm(a[1], a[2])

----------------------------------------------------------------------------
(* Conversion machine "matconv", par = <<M, N, P, Q>>. Registers: 0 MxN of *)
(* type T; 1 PxQ of type U; 2 MxN of type U.                               *)

ConvInit(p) == << Fresh(p[1], p[2]), Fresh(p[3], p[4]), Fresh(p[1], p[2]) >>
\* construction / assignment from another shape and type
Convert(d, s, form) == Write(d, Reshape(R(s), R(d).r, R(d).c))
\* cast_from, same shape
CastFrom(d, s) == Write(d, R(s))
\* T[M][N] (0) and row-major T* (1)
FromArray(d, form, s) == Write(d, Raw(R(d).r, R(d).c, 1, s))
DefaultCtor(d) == Write(d, Fresh(R(d).r, R(d).c))
\* all-zero constant
Zero(d) == Write(d, ZeroM(R(d).r, R(d).c))

StepConv(c) == LET a == c.a IN
    CASE c.op = "cvt"  -> Convert(a[1], a[2], a[3])
      [] c.op = "cast" -> CastFrom(a[1], a[2])
      [] c.op = "arr"  -> FromArray(a[1], a[2], From(a, 3))
      [] c.op = "dflt" -> DefaultCtor(a[1])
      [] c.op = "zer"  -> Zero(a[1])
=============================================================================
