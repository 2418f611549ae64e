------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Exact integer / rational linear algebra, written from the mathematical  *)
(* definitions and not from the code.                                      *)
(*                                                                         *)
(* A value (matrix, vector, quaternion, box, ...) is a record              *)
(*      [r |-> rows, c |-> columns, q |-> common denominator > 0,          *)
(*       v |-> row-major sequence of integer numerators]                   *)
(* Element indices are zero-based, as in the API.  A column vector has     *)
(* c = 1, a scalar r = c = 1.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Bool(b) == IF b THEN 1 ELSE 0

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmAll(_, _)
LcmAll(s, k) == IF k = 0 THEN 1 ELSE Lcm(LcmAll(s, k - 1), Abs(s[k]))
RECURSIVE GcdAll(_, _)
GcdAll(s, k) == IF k = 0 THEN 0 ELSE Gcd(GcdAll(s, k - 1), s[k])

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)

\* Sum of f(lo) .. f(hi)
SumR(f(_), lo, hi) ==
    LET g[k \in (lo - 1)..hi] == IF k < lo THEN 0 ELSE g[k - 1] + f(k)
    IN IF hi < lo THEN 0 ELSE g[hi]
ProdR(f(_), lo, hi) ==
    LET g[k \in (lo - 1)..hi] == IF k < lo THEN 1 ELSE g[k - 1] * f(k)
    IN IF hi < lo THEN 1 ELSE g[hi]

\* the least integer s >= 0 with s * s >= n (n >= 0)
RECURSIVE ISqrtUp(_, _)
ISqrtUp(n, s) == IF s * s >= n THEN s ELSE ISqrtUp(n, s + 1)
IsSquare(n) == n >= 0 /\ LET s == ISqrtUp(n, 0) IN s * s = n
Sqrt(n) == ISqrtUp(n, 0)

Mk(r, c, q, f(_, _)) ==
    [r |-> r, c |-> c, q |-> q,
     v |-> TLCEval([k \in 1..(r * c) |-> f((k - 1) \div c, (k - 1) % c)])]

Raw(r, c, q, s) == [r |-> r, c |-> c, q |-> q, v |-> s]
Col(s) == Raw(Len(s), 1, 1, s)
ColQ(q, s) == Raw(Len(s), 1, q, s)

E(m, i, j) == m.v[i * m.c + j + 1]
V(m, i) == m.v[i + 1]
Size(m) == m.r * m.c

\* exact equality of two values (same shape)
Same(a, b) == /\ a.r = b.r /\ a.c = b.c
              /\ IF a.q = b.q THEN a.v = b.v
                 ELSE \A k \in 1..(a.r * a.c) :
                        /\ (a.v[k] * b.q) % a.q = 0
                        /\ b.v[k] = (a.v[k] * b.q) \div a.q

Const(r, c, x) == Mk(r, c, 1, LAMBDA i, j : x)
ZeroM(r, c) == Const(r, c, 0)
IdM(n) == Mk(n, n, 1, LAMBDA i, j : Bool(i = j))
Fresh(r, c) == IF r = c THEN IdM(r) ELSE ZeroM(r, c)

\* change the denominator to a multiple
Over(m, q) == IF m.q = q THEN m
              ELSE Mk(m.r, m.c, q, LAMBDA i, j : E(m, i, j) * (q \div m.q))

AddM(a, b) == LET q == Lcm(a.q, b.q) x == Over(a, q) y == Over(b, q)
              IN Mk(a.r, a.c, q, LAMBDA i, j : E(x, i, j) + E(y, i, j))
SubM(a, b) == LET q == Lcm(a.q, b.q) x == Over(a, q) y == Over(b, q)
              IN Mk(a.r, a.c, q, LAMBDA i, j : E(x, i, j) - E(y, i, j))
NegM(a) == Mk(a.r, a.c, a.q, LAMBDA i, j : -E(a, i, j))
\* times the rational n / d, d > 0
ScaleM(a, n, d) == Mk(a.r, a.c, a.q * d, LAMBDA i, j : E(a, i, j) * n)
\* divided by the rational n / d, d > 0, n # 0
DivM(a, n, d) == ScaleM(a, Sgn(n) * d, Abs(n))
\* quotient rounded towards zero (integer element types), b # 0
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
\* the quotient of an integer matrix and an integer
TDivM(a, n) == Mk(a.r, a.c, 1, LAMBDA i, j : TDiv(E(a, i, j), n))
\* plus the rational n / d in every element
ShiftM(a, n, d) == LET q == Lcm(a.q, d)
                   IN Mk(a.r, a.c, q, LAMBDA i, j :
                             E(a, i, j) * (q \div a.q) + n * (q \div d))
PieceM(a, b) == Mk(a.r, a.c, a.q * b.q, LAMBDA i, j : E(a, i, j) * E(b, i, j))
\* element-wise a / b: for b.q = 1, a.q = 1, over the product of b's elements
MulM(a, b) == Mk(a.r, b.c, a.q * b.q,
                 LAMBDA i, j : SumR(LAMBDA p : E(a, i, p) * E(b, p, j),
                                    0, a.c - 1))
TransM(a) == Mk(a.c, a.r, a.q, LAMBDA i, j : E(a, j, i))
SetE(a, i, j, x) == [a EXCEPT !.v[i * a.c + j + 1] = x]

RowOf(a, i) == Mk(1, a.c, a.q, LAMBDA k, j : E(a, i, j))
ColOf(a, j) == Mk(a.r, 1, a.q, LAMBDA i, k : E(a, i, j))
\* the same numbers as a column vector
AsCol(a) == Raw(Size(a), 1, a.q, a.v)
AsRow(a) == Raw(1, Size(a), a.q, a.v)
SubMat(a, r, c, i0, j0) == Mk(r, c, a.q, LAMBDA i, j : E(a, i0 + i, j0 + j))
\* s written into a at (i0, j0); common denominator
Paste(a, s, i0, j0) ==
    LET q == Lcm(a.q, s.q) x == Over(a, q) y == Over(s, q)
    IN Mk(a.r, a.c, q, LAMBDA i, j :
            IF i >= i0 /\ i < i0 + s.r /\ j >= j0 /\ j < j0 + s.c
            THEN E(y, i - i0, j - j0) ELSE E(x, i, j))
\* the top-left block of a in an r x c value, zero elsewhere
Reshape(a, r, c) == Mk(r, c, a.q, LAMBDA i, j :
                          IF i < a.r /\ j < a.c THEN E(a, i, j) ELSE 0)

\* matrix without row r0 and column c0
Cut(a, r0, c0) == Mk(a.r - 1, a.c - 1, a.q, LAMBDA i, j :
                       E(a, IF i < r0 THEN i ELSE i + 1,
                            IF j < c0 THEN j ELSE j + 1))
\* numerator of the determinant over q^n (Laplace expansion of the first row)
RECURSIVE DetN(_)
DetN(a) == IF a.r = 0 THEN 1 ELSE IF a.r = 1 THEN a.v[1]
           ELSE SumR(LAMBDA j : IF E(a, 0, j) = 0 THEN 0 ELSE
                        (IF j % 2 = 0 THEN 1 ELSE -1) * E(a, 0, j)
                            * DetN(Cut(a, 0, j)), 0, a.c - 1)
MinorN(a, i, j) == DetN(Cut(a, i, j))
CofM(a) == Mk(a.r, a.c, Pow(a.q, a.r - 1), LAMBDA i, j :
                (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * MinorN(a, i, j))
AdjM(a) == TransM(CofM(a))
\* inverse of an integer matrix with determinant # 0
InvM(a) == LET d == DetN(a) adj == AdjM(a) IN
           Mk(a.r, a.c, Abs(d), LAMBDA i, j : Sgn(d) * E(adj, i, j))

DiagM(v) == Mk(v.r, v.r, v.q, LAMBDA i, j : IF i = j THEN V(v, i) ELSE 0)
OuterM(u, v) == Mk(u.r, v.r, u.q * v.q, LAMBDA i, j : V(u, i) * V(v, j))
KronM(a, b) == Mk(a.r * b.r, a.c * b.c, a.q * b.q, LAMBDA i, j :
                    E(a, i \div b.r, j \div b.c) * E(b, i % b.r, j % b.c))
\* column-wise Kronecker product
KhatM(a, b) == Mk(a.r * b.r, a.c, a.q * b.q, LAMBDA i, j :
                    E(a, i \div b.r, j) * E(b, i % b.r, j))
DSumM(a, b) == LET q == Lcm(a.q, b.q) x == Over(a, q) y == Over(b, q)
               IN Mk(a.r + b.r, a.c + b.c, q, LAMBDA i, j :
                     IF i < a.r /\ j < a.c THEN E(x, i, j)
                     ELSE IF i >= a.r /\ j >= a.c THEN E(y, i - a.r, j - a.c)
                     ELSE 0)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* correlation with the kernel k centred at (k.r \div 2, k.c \div 2); the
\* border of a is extended
ConvM(a, k) == Mk(a.r, a.c, a.q * k.q, LAMBDA y, x :
    SumR(LAMBDA j : SumR(LAMBDA i :
             E(k, j, i) * E(a, Clip(y - (k.r \div 2) + j, 0, a.r - 1),
                               Clip(x - (k.c \div 2) + i, 0, a.c - 1)),
             0, k.c - 1), 0, k.r - 1))

DotN(a, b) == SumR(LAMBDA i : V(a, i) * V(b, i), 0, Size(a) - 1)
SumN(a) == SumR(LAMBDA i : V(a, i), 0, Size(a) - 1)
CrossM(a, b) == Raw(3, 1, a.q * b.q,
    << V(a,1) * V(b,2) - V(a,2) * V(b,1),
       V(a,2) * V(b,0) - V(a,0) * V(b,2),
       V(a,0) * V(b,1) - V(a,1) * V(b,0) >>)
Elems(a) == {a.v[k] : k \in 1..Len(a.v)}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
CountN(a, P(_)) == Cardinality({k \in 1..Len(a.v) : P(a.v[k])})
MapM(a, f(_)) == Mk(a.r, a.c, a.q, LAMBDA i, j : f(E(a, i, j)))

\* signed squares: numerators of x |-> sign(x) x^2 over q^2
SgnSq(a) == Mk(a.r, a.c, a.q * a.q, LAMBDA i, j :
                 Sgn(E(a, i, j)) * E(a, i, j) * E(a, i, j))

\* Rotation by the angle with cosine c / h and sine s / h about the axis
\* (x, y, z) / n of unit length (Rodrigues' formula).
RotM(c, s, h, x, y, z, n) ==
    LET ax == <<x, y, z>>
        Sk == << <<0, -z, y>>, <<z, 0, -x>>, <<-y, x, 0>> >>
    IN Mk(3, 3, h * n * n, LAMBDA i, j :
          (IF i = j THEN c * n * n ELSE 0)
          + (h - c) * ax[i + 1] * ax[j + 1]
          + s * n * Sk[i + 1][j + 1])
\* the 3x3 value m in the upper left of the 4x4 identity
To4(m) == Mk(4, 4, m.q, LAMBDA i, j :
                IF i < 3 /\ j < 3 THEN E(m, i, j)
                ELSE IF i = j THEN m.q ELSE 0)
TransIM(x, y, z, q) ==
    Raw(4, 4, q, <<q,0,0,x, 0,q,0,y, 0,0,q,z, 0,0,0,q>>)
ScaleIM(x, y, z, q) ==
    Raw(4, 4, q, <<x,0,0,0, 0,y,0,0, 0,0,z,0, 0,0,0,q>>)

\* Hamilton product of quaternions stored (x, y, z, w)
QMul(a, b) == Raw(4, 1, a.q * b.q,
    << V(a,3)*V(b,0) + V(a,0)*V(b,3) + V(a,1)*V(b,2) - V(a,2)*V(b,1),
       V(a,3)*V(b,1) + V(a,1)*V(b,3) + V(a,2)*V(b,0) - V(a,0)*V(b,2),
       V(a,3)*V(b,2) + V(a,2)*V(b,3) + V(a,0)*V(b,1) - V(a,1)*V(b,0),
       V(a,3)*V(b,3) - V(a,0)*V(b,0) - V(a,1)*V(b,1) - V(a,2)*V(b,2) >>)
QConj(a) == Raw(4, 1, a.q, <<-V(a,0), -V(a,1), -V(a,2), V(a,3)>>)
\* rotation matrix numerators of the (not necessarily unit) quaternion
QRot(a) == LET x == V(a,0) y == V(a,1) z == V(a,2) w == V(a,3) IN
    Raw(3, 3, a.q * a.q,
    << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y),
       2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
       2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >>)

\* Numbers of more than 31 bits: sequences of three digits to the base 65536
Base == 65536
\* divided by d <= 32768, rounded down
Over3(x, d) == LET a == x[1] b == (a % d) * Base + x[2] c == (b % d) * Base + x[3] IN
    <<a \div d, b \div d, c \div d>>
=============================================================================
