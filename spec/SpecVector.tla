----------------------------- MODULE SpecVector -----------------------------
(***************************************************************************)
(* Vectors: arithmetic, geometry, comparison and search, construction and  *)
(* views, planes and spheres.                                              *)
(***************************************************************************)
EXTENDS Machine

\* element-wise quotient; no element of b is zero
DivE(a, b) == LET L == LcmAll(b.v, Len(b.v)) IN
    Mk(a.r, a.c, a.q * L, LAMBDA i, j :
         E(a, i, j) * b.q * (L \div Abs(E(b, i, j))) * Sgn(E(b, i, j)))
TDivE(a, b) == Mk(a.r, a.c, 1, LAMBDA i, j : TDiv(E(a, i, j), E(b, i, j)))
Splat(m, i) == Mk(m.r, m.c, m.q, LAMBDA x, y : V(m, i))

----------------------------------------------------------------------------
(* Arithmetic machine "vecarith", par = <<M, integer?>>.  Registers 0..3   *)
(* are M-vectors.                                                          *)

VArithInit(p) == [i \in 1..4 |-> ZeroM(p[1], 1)]
IsInt == par[2] = 1

\* f: 0 sum, 1 difference, 2 product, 3 quotient of vectors
Comb(f, a, b) ==
    CASE f = 0 -> AddM(a, b) [] f = 1 -> SubM(a, b) [] f = 2 -> PieceM(a, b)
      [] f = 3 -> IF IsInt THEN TDivE(a, b) ELSE DivE(a, b)
\* the same with the scalar k
CombS(f, a, k) == Comb(f, a, Const(a.r, a.c, k))

VDot(a, b) == Query(RetQ(R(a).q * R(b).q, <<DotN(R(a), R(b))>>))
VProduct(a) == Query(RetQ(Pow(R(a).q, R(a).r),
                          <<ProdR(LAMBDA i : V(R(a), i), 0, R(a).r - 1)>>))
VSqLen(a) == Query(RetQ(R(a).q * R(a).q, <<DotN(R(a), R(a))>>))
VSqDist(a, b) == LET d == SubM(R(a), R(b)) IN
                 Query(RetQ(d.q * d.q, <<DotN(d, d)>>))

StepVArith(c) == LET a == c.a IN
    CASE c.op = "bin"   -> Write(a[2], Comb(a[1], R(a[3]), R(a[4])))
      [] c.op = "binip" -> Write(a[2], Comb(a[1], R(a[2]), R(a[3])))
      [] c.op = "sca"   -> Write(a[2], CombS(a[1], R(a[3]), a[5]))
      \* in place with an own component as the scalar
      [] c.op = "self"  -> Write(a[2], Comb(a[1], R(a[2]), Splat(R(a[2]), a[3])))
      [] c.op = "neg"   -> Write(a[1], NegM(R(a[2])))
      [] c.op = "cross" -> Write(a[1], CrossM(R(a[2]), R(a[3])))
      [] c.op = "dot"   -> VDot(a[1], a[2])
      [] c.op = "prod"  -> VProduct(a[1])
      [] c.op = "sql"   -> VSqLen(a[1])
      [] c.op = "sqd"   -> VSqDist(a[1], a[2])
      [] c.op = "cp"    -> Write(a[1], R(a[2]))
      [] c.op = "swap"  -> Set2(a[1], R(a[2]), a[2], R(a[1])) /\ out' = Void /\ Frame

----------------------------------------------------------------------------
(* Geometry machine "vecgeom", par = <<M>>; registers 0..3 M-vectors.      *)
(* Irrational results are specified by their sign and square.              *)

VGeomInit(p) == [i \in 1..4 |-> ZeroM(p[1], 1)]

\* sign and square of a length
Root(n, q) == RetQ(q * q, <<Sgn(n) * q * q, n>>)
VLength(a) == Query(Root(DotN(R(a), R(a)), R(a).q))
VDistance(a, b) == LET d == SubM(R(a), R(b)) IN Query(Root(DotN(d, d), d.q))
\* signed squares of the components of m / |m| (zero if m is zero)
UnitSq(m) == LET n == DotN(m, m) IN
    [q |-> Max2(1, n), v |-> [k \in 1..Len(m.v) |-> Sgn(m.v[k]) * m.v[k] * m.v[k]]]
\* normalize: the result or (form 2) the former length; the zero vector stays
VNormalize(a, form) ==
    LET m == R(a) n == DotN(m, m) u == UnitSq(m) IN
    Query(IF form = 2 THEN Root(n, m.q) ELSE RetQ(u.q, u.v))
TriNormal(a, b, c) == CrossM(SubM(R(b), R(a)), SubM(R(c), R(a)))
VNormal(a, b, c) == LET u == UnitSq(TriNormal(a, b, c)) IN Query(RetQ(u.q, u.v))
\* rotation by the angle (c, s) / h about the direction (x, y, z), whose
\* length is n times some scale
VRotate(d, a, c, s, h, x, y, z, n) ==
    Write(d, MulM(RotM(c, s, h, x, y, z, n), R(a)))

StepVGeom(c) == LET a == c.a IN
    CASE c.op = "len"  -> VLength(a[1])
      [] c.op = "dist" -> VDistance(a[1], a[2])
      [] c.op = "nrm"  -> VNormalize(a[1], a[2])
      [] c.op = "norm" -> VNormal(a[1], a[2], a[3])
      [] c.op = "rot"  -> VRotate(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
      [] c.op = "cp"   -> Write(a[1], R(a[2]))

----------------------------------------------------------------------------
(* Comparison and search machine "vecsearch", par = <<M>>; registers 0, 1  *)
(* are M-vectors, 2 an M-vector of a smaller integer type.                 *)

VSearchInit(p) == [i \in 1..3 |-> ZeroM(p[1], 1)]

Eq2(a, b) == LET e == Bool(Same(R(a), R(b))) IN Query(RetI(<<e, 1 - e, e, 1 - e>>))
\* a < b over the same denominator
LexLess(a, b) == \E k \in 1..Len(a.v) :
    a.v[k] * b.q < b.v[k] * a.q /\ \A j \in 1..(k - 1) : a.v[j] * b.q = b.v[j] * a.q
Less2(a, b) == Query(RetI(<<Bool(LexLess(R(a), R(b))), Bool(LexLess(R(b), R(a)))>>))
\* all differences below t / 2
VNear(a, b, t) == Query(RetI(<<Bool(\A k \in 1..Len(R(a).v) :
                                     2 * Abs(R(a).v[k] - R(b).v[k]) < t)>>))
\* first position of the smallest f(element)
First(m, f(_)) == CHOOSE k \in 1..Len(m.v) :
    /\ \A j \in 1..Len(m.v) : f(m.v[k]) <= f(m.v[j])
    /\ \A j \in 1..(k - 1) : f(m.v[j]) > f(m.v[k])
Pos(m, w) == CASE w = 0 -> First(m, LAMBDA x : x)
               [] w = 1 -> First(m, LAMBDA x : -x)
               [] w = 2 -> First(m, LAMBDA x : Abs(x))
               [] w = 3 -> First(m, LAMBDA x : -Abs(x))
\* index (form 0) or position and value (form 1) of the extreme component
FindPos(a, w, form) == LET k == Pos(R(a), w) IN
    Query(IF form = 0 THEN RetI(<<k - 1>>)
          ELSE RetQ(R(a).q, <<(k - 1) * R(a).q, R(a).v[k]>>))
\* writing through the reference to the extreme component
FindWrite(a, w, x) == Write(a, [R(a) EXCEPT !.v[Pos(R(a), w)] = x * R(a).q])
VClamp(a, lo, hi) == Write(a, MapM(R(a), LAMBDA x :
                         Clip(x, lo * R(a).q, hi * R(a).q)))
\* linear map of [lo, hi] onto [0, top], rounded towards zero
ScaleTo(a, lo, hi, top) == Write(2, Mk(R(a).r, 1, 1, LAMBDA i, j :
    TDiv((V(R(a), i) - lo * R(a).q) * top, (hi - lo) * R(a).q)))
\* ... onto [0, 2^31 - 1]: the upper and the lower 16 bits
ScaleToInt(a, lo, hi) ==
    LET m == R(a)
        T3(n) == LET x == n * (Base - 1) y == n * 32767 + (x \div Base)
                 IN Over3(<<y \div Base, y % Base, x % Base>>, (hi - lo) * m.q)
    IN Query(RetI([k \in 1..2 * m.r |-> T3(m.v[(k + 1) \div 2] - lo * m.q)[2 + ((k + 1) % 2)]]))
\* reciprocals; zeros (reported by the flags) become the largest value
Recip(a, safe) ==
    LET m == R(a)
        nz == Raw(m.r, 1, m.q, [k \in 1..m.r |-> IF m.v[k] = 0 THEN m.q ELSE m.v[k]])
        x == DivE(Const(m.r, 1, 1), nz)
    IN WriteRet(a, Raw(m.r, 1, x.q, [k \in 1..m.r |-> IF m.v[k] = 0 THEN 0 ELSE x.v[k]]),
                IF safe = 1 THEN RetI([k \in 1..m.r |-> Bool(m.v[k] = 0)]) ELSE Void)
VNonZeros(a) == Query(RetI(<<CountN(R(a), LAMBDA x : x # 0)>>))
\* exactly one component is one, the others zero
IsUnit(a) == LET m == R(a) IN Query(RetI(<<Bool(\E k \in 1..m.r :
    m.v[k] = m.q /\ \A j \in (1..m.r) \ {k} : m.v[j] = 0)>>))
\* every component moves by +p or -p
Perturb(a, p) == \E s \in [1..R(a).r -> {-1, 1}] :
    Write(a, Raw(R(a).r, 1, R(a).q, [k \in 1..R(a).r |-> R(a).v[k] + s[k] * p * R(a).q]))
\* squares of the component-wise roots
SqrtAll(a) == Query(RetV(R(a)))

StepVSearch(c) == LET a == c.a IN
    CASE c.op = "eq"   -> Eq2(a[1], a[2])
      [] c.op = "lt"   -> Less2(a[1], a[2])
      [] c.op = "near" -> VNear(a[1], a[2], a[3])
      \* a vector with a component that is not a number: ==, !=, equals (with
      \* any tolerance) of register b, the other way round, of itself
      [] c.op = "nan"  -> Query(RetI(<<0, 1, 0, 0, 0>>))
      [] c.op = "find" -> FindPos(a[1], a[2], a[3])
      [] c.op = "fwr"  -> FindWrite(a[1], a[2], a[3])
      [] c.op = "clmp" -> VClamp(a[1], a[2], a[3])
      [] c.op = "scal" -> ScaleTo(a[1], a[2], a[3], a[4])
      [] c.op = "scai" -> ScaleToInt(a[1], a[2], a[3])
      [] c.op = "rcp"  -> Recip(a[1], a[2])
      [] c.op = "nnz"  -> VNonZeros(a[1])
      [] c.op = "unit" -> IsUnit(a[1])
      [] c.op = "l2"   -> VLength(a[1])
      [] c.op = "pert" -> Perturb(a[1], a[2])
      [] c.op = "sqrt" -> SqrtAll(a[1])
      [] c.op = "cp"   -> Write(a[1], R(a[2]))

----------------------------------------------------------------------------
(* Construction and view machine "vecview", par = <<M, N>>; registers: 0 an *)
(* M-vector, 1 an (M+1)-vector, 2 an (M-1)-vector, 3 an M-vector of         *)
(* another type, 4 an N-vector, N <= M.                                     *)

VViewInit(p) == << ZeroM(p[1], 1), ZeroM(p[1] + 1, 1), ZeroM(p[1] - 1, 1),
                   ZeroM(p[1], 1), ZeroM(p[2], 1) >>

VWr(i, x) == IF i >= 0 /\ i < R(0).r
             THEN Write(0, [R(0) EXCEPT !.v[i + 1] = x * R(0).q]) ELSE Reject
VRd(i) == IF i >= 0 /\ i < R(0).r THEN Query(RetQ(R(0).q, <<V(R(0), i)>>)) ELSE Reject
VIter(rev) == LET m == R(0) IN
    Query(RetQ(m.q, IF rev = 0 THEN m.v ELSE [k \in 1..m.r |-> m.v[m.r + 1 - k]]))
\* the first Len(s) components become s
VPrefix(d, s) == Write(d, LET m == R(d) IN Raw(m.r, 1, m.q,
    [k \in 1..m.r |-> IF k <= Len(s) THEN s[k] * m.q ELSE m.v[k]]))
VFill(x) == Write(0, Const(R(0).r, 1, x))
\* components of register s, then x
Append1(s, x) == LET m == R(s) IN
    Write(0, Raw(m.r + 1, 1, m.q, m.v \o <<x * m.q>>))
\* from homogeneous coordinates, w # 0
FromHomog(d, s) == LET m == R(s) n == R(d).r w == V(m, n) IN
    Write(d, Raw(n, 1, Abs(w), [k \in 1..n |-> Sgn(w) * m.v[k]]))
\* of integers
FromHomogInt(d, s) == LET m == R(s) n == R(d).r IN
    Write(d, Raw(n, 1, 1, [k \in 1..n |-> TDiv(m.v[k], V(m, n))]))
ToHomog(d, s) == LET m == R(s) IN Write(d, Raw(m.r + 1, 1, m.q, m.v \o <<m.q>>))
\* sub-vector views
SubRead(o) == Write(4, LET m == R(0) IN Raw(par[2], 1, m.q, SubSeq(m.v, o + 1, o + par[2])))
SubWrite(o) == Write(0, Paste(R(0), R(4), o, 0))
SubPoke(o, i, x) == Write(0, [R(0) EXCEPT !.v[o + i + 1] = x * R(0).q])
\* the common first components of another vector
SetFrom(s) == Write(0, Paste(R(0), Reshape(R(s), Min2(R(s).r, R(0).r), 1), 0, 0))
\* named constants of three components
Named(w) == Write(0, Raw(3, 1, 1,
    CASE w = 0 -> <<0, 0, -1>> [] w = 1 -> <<0, 0, 1>> [] w = 2 -> <<0, 1, 0>>
      [] w = 3 -> <<0, -1, 0>> [] w = 4 -> <<-1, 0, 0>> [] w = 5 -> <<1, 0, 0>>
      [] w = 6 -> <<1, 1, 1>> [] w = 7 -> <<0, 0, 0>> [] w = 8 -> <<1, 0, 0>>
      [] w = 9 -> <<0, 1, 0>> [] w = 10 -> <<0, 0, 1>>))

StepVView(c) == LET a == c.a IN
    CASE c.op = "wr"   -> VWr(a[2], a[3])
      [] c.op = "rd"   -> VRd(a[2])
      [] c.op = "iter" -> VIter(a[1])
      [] c.op = "fill" -> VFill(a[2])
      [] c.op = "app"  -> Append1(2, a[2])
      [] c.op = "pre"  -> VPrefix(0, From(a, 2))
      [] c.op = "toh"  -> ToHomog(a[1], a[2])
      [] c.op = "frh"  -> FromHomog(a[1], a[2])
      [] c.op = "frhi" -> FromHomogInt(a[1], a[2])
      [] c.op = "cnv"  -> Write(a[1], R(a[2]))
      [] c.op = "sget" -> SubRead(a[1])
      [] c.op = "sput" -> SubWrite(a[1])
      [] c.op = "spok" -> SubPoke(a[1], a[2], a[3])
      [] c.op = "setf" -> SetFrom(a[1])
      [] c.op = "name" -> Named(a[1])
      [] c.op = "size" -> Query(RetI(<<R(0).r>>))

----------------------------------------------------------------------------
(* Planes and spheres "vecplane"; registers: 0 plane (unit normal, offset), *)
(* 1 point, 2, 3, 4 points, 5 sphere (centre, radius), 6 result point.      *)

VPlaneInit(p) == << ZeroM(4, 1), ZeroM(3, 1), ZeroM(3, 1), ZeroM(3, 1),
                    ZeroM(3, 1), ZeroM(4, 1), ZeroM(3, 1) >>
Xyz(m) == Raw(3, 1, m.q, SubSeq(m.v, 1, 3))

\* plane through the points, which appear clockwise seen from its positive
\* side: signed squares of its coefficients; kept in
\* register 0 if they are rational
MakePlane(a, b, c) ==
    LET n == TriNormal(a, c, b)
        s == DotN(n, n)
        w == -DotN(n, R(a))   \* over n.q * R(a).q
        q2 == R(a).q * R(a).q
        o == RetQ(Max2(1, s * q2), [k \in 1..3 |-> Sgn(V(n, k-1)) * V(n, k-1) * V(n, k-1) * q2]
                                    \o <<Sgn(w) * w * w>>)
    IN IF IsSquare(s) /\ s > 0
       THEN WriteRet(0, Raw(4, 1, Sqrt(s) * R(a).q,
                            [k \in 1..4 |-> IF k < 4 THEN V(n, k-1) * R(a).q ELSE w]), o)
       ELSE WriteRet(0, ZeroM(4, 1), o)
PlaneDist(p) == DotN(Xyz(R(0)), R(p)) + V(R(0), 3) * R(p).q \* over R(0).q R(p).q
DistPlane == Query(RetQ(R(0).q * R(1).q, <<PlaneDist(1)>>))
ProjPlane == LET q == R(0).q d == PlaneDist(1) IN
    Write(6, Raw(3, 1, q * q * R(1).q,
       [k \in 1..3 |-> V(R(1), k-1) * q * q - R(0).v[k] * d]))
\* (distance + radius): sign and square
DistSphere == LET d == SubM(R(1), Xyz(R(5))) s == DotN(d, d) IN
    Query(RetQ(d.q * d.q, <<Sgn(s) * d.q * d.q, s>>))
\* signed squares of the offset from the centre; the point is not the centre
\* (the irrational result itself is not kept: register 6 becomes zero)
ProjSphere == LET d == SubM(R(1), Xyz(R(5))) s == DotN(d, d) r == V(R(5), 3) IN
    WriteRet(6, ZeroM(3, 1), RetQ(s * R(5).q * R(5).q,
        [k \in 1..3 |-> Sgn(d.v[k]) * Sgn(r) * d.v[k] * d.v[k] * r * r]))

StepVPlane(c) == LET a == c.a IN
    CASE c.op = "plane" -> MakePlane(a[1], a[2], a[3])
      [] c.op = "d2p"   -> DistPlane
      [] c.op = "prp"   -> ProjPlane
      [] c.op = "d2s"   -> DistSphere
      [] c.op = "prs"   -> ProjSphere
=============================================================================
