------------------------------- MODULE LinAlg -------------------------------
(* Vectors, matrices (column by column), quaternions, rectangles: what each operation means, in integers. *)
(* A call's arguments are integers over a common denominator d.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cut(a, i, n) == SubSeq(a, i, i + n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
VAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
VSub(x, y) == [i \in 1..Len(x) |-> x[i] - y[i]]
VMul(x, s) == [i \in 1..Len(x) |-> x[i] * s]
RECURSIVE Sum(_, _)
Sum(x, k) == IF k = 0 THEN 0 ELSE x[k] + Sum(x, k - 1)
Dot(x, y) == Sum([i \in 1..Len(x) |-> x[i] * y[i]], Len(x))
Cross(x, y) == <<x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1]>>
RECURSIVE MaxOf(_)
MaxOf(x) == IF Len(x) = 1 THEN x[1] ELSE Max(x[1], MaxOf(Tail(x)))
\* matrices: At(m, n, r, c), r and c from 0
At(m, n, r, c) == m[c * n + r + 1]
Build(n, F(_, _)) == [k \in 1..(n * n) |-> F((k - 1) % n, (k - 1) \div n)]
Ident(n) == Build(n, LAMBDA r, c : IF r = c THEN 1 ELSE 0)
Trans(m, n) == Build(n, LAMBDA r, c : At(m, n, c, r))
MMul(x, y, n) == Build(n, LAMBDA r, c : Sum([k \in 1..n |-> At(x, n, r, k - 1) * At(y, n, k - 1, c)], n))
MVec(m, v, n) == [i \in 1..n |-> Sum([k \in 1..n |-> At(m, n, i - 1, k - 1) * v[k]], n)]
\* the matrix without row r and column c
Without(m, n, r, c) == Build(n - 1, LAMBDA i, j : At(m, n, IF i < r THEN i ELSE i + 1, IF j < c THEN j ELSE j + 1))
RECURSIVE Det(_, _)
Det(m, n) == IF n = 1 THEN m[1] ELSE Sum([k \in 1..n |-> (IF k % 2 = 1 THEN 1 ELSE -1) * At(m, n, 0, k - 1) * Det(Without(m, n, 0, k - 1), n - 1)], n)
Adj(m, n) == Build(n, LAMBDA r, c : (IF (r + c) % 2 = 0 THEN 1 ELSE -1) * Det(Without(m, n, c, r), n - 1))
Diag(x, y, z, w) == Build(4, LAMBDA r, c : IF r # c THEN 0 ELSE <<x, y, z, w>>[r + 1])
Shift(v, one) == Build(4, LAMBDA r, c : IF r = c THEN one ELSE IF c = 3 THEN v[r + 1] ELSE 0)
\* quaternions x y z w
QMul(p, q) == <<p[4] * q[1] + p[1] * q[4] + p[2] * q[3] - p[3] * q[2],
                p[4] * q[2] - p[1] * q[3] + p[2] * q[4] + p[3] * q[1],
                p[4] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[4],
                p[4] * q[4] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3]>>
QConj(q) == <<-q[1], -q[2], -q[3], q[4]>>
QRot(q, v) == Cut(QMul(QMul(q, v \o <<0>>), QConj(q)), 1, 3)           \* |q|^2 times the rotated vector
QMat(q) == LET c(e) == QRot(q, e) N == Dot(q, q) IN c(<<1, 0, 0>>) \o <<0>> \o c(<<0, 1, 0>>) \o <<0>> \o c(<<0, 0, 1>>) \o <<0>> \o <<0, 0, 0, N>>  \* |q|^2 times the matrix
\* rectangles: position and extent, the extent may be negative; boxes: min and max
Lo(r, i) == Min(r[i], r[i] + r[i + 2])
Hi(r, i) == Max(r[i], r[i] + r[i + 2])
RHas(r, x, y) == Lo(r, 1) <= x /\ x < Hi(r, 1) /\ Lo(r, 2) <= y /\ y < Hi(r, 2)
Meet(r, s) == LET x0 == Max(Lo(r, 1), Lo(s, 1)) y0 == Max(Lo(r, 2), Lo(s, 2)) x1 == Min(Hi(r, 1), Hi(s, 1)) y1 == Min(Hi(r, 2), Hi(s, 2)) IN
  IF x0 < x1 /\ y0 < y1 THEN <<x0, y0, x1 - x0, y1 - y0>> ELSE <<>>
\* cutting k off a side of a box: <<the piece, what remains>>
CutSide(b, s, k) ==
  CASE s = 0 -> LET e == Min(b[3], b[1] + k) IN <<<<b[1], b[2], e, b[4]>>, <<e, b[2], b[3], b[4]>>>>
    [] s = 1 -> LET e == Max(b[1], b[3] - k) IN <<<<e, b[2], b[3], b[4]>>, <<b[1], b[2], e, b[4]>>>>
    [] s = 2 -> LET e == Min(b[4], b[2] + k) IN <<<<b[1], b[2], b[3], e>>, <<b[1], e, b[3], b[4]>>>>
    [] s = 3 -> LET e == Max(b[2], b[4] - k) IN <<<<b[1], e, b[3], b[4]>>, <<b[1], b[2], b[3], e>>>>
AddSide(b, s, k) ==
  CASE s = 0 -> <<b[1] - k, b[2], b[1], b[4]>> [] s = 1 -> <<b[3], b[2], b[3] + k, b[4]>>
    [] s = 2 -> <<b[1], b[2] - k, b[3], b[2]>> [] s = 3 -> <<b[1], b[4], b[3], b[4] + k>>
Contract(b, k) == IF b[1] + k > b[3] - k \/ b[2] + k > b[4] - k THEN <<0, 0, 0, 0>> ELSE <<b[1] + k, b[2] + k, b[3] - k, b[4] - k>>
\* a point against the six sides of a view volume: clip coordinates of PROJECTION * CAMERA * point
Clip(p, c, v) == MVec(p, MVec(c, v \o <<1>>, 4), 4)
Inside(q) == \A i \in 1..3 : -q[4] < q[i] /\ q[i] < q[4]
OnSide(q) == \E i \in 1..3 : q[i] = q[4] \/ q[i] = -q[4]
Corners(a, b) == {<<x, y, z>> : x \in {a[1], b[1]}, y \in {a[2], b[2]}, z \in {a[3], b[3]}}
\* every corner is beyond one and the same side
Beyond(qs) == \E i \in 1..3 : (\A q \in qs : q[i] < -q[4]) \/ (\A q \in qs : q[i] > q[4])
\* polynomials of Hermite interpolation, any integer t
Herm(a, v, b, w, t) == VAdd(VAdd(VMul(a, (1 + 2 * t) * (t - 1) * (t - 1)), VMul(v, t * (t - 1) * (t - 1))), VAdd(VMul(b, t * t * (3 - 2 * t)), VMul(w, t * t * (t - 1))))
DHerm(a, v, b, w, t) == VAdd(VAdd(VMul(a, 6 * t * t - 6 * t), VMul(v, 3 * t * t - 4 * t + 1)), VAdd(VMul(b, 6 * t - 6 * t * t), VMul(w, 3 * t * t - 2 * t)))
\* what a call must give: a fraction <<numerators, denominator>>
Give(f, n, w, d, a) ==
  LET x == Cut(a, 1, n) y == IF Len(a) >= 2 * n THEN Cut(a, n + 1, n) ELSE <<>> nn == n * n IN
  CASE f = "make" -> <<x, d>> [] f = "zero" -> <<[i \in 1..n |-> 0], 1>>
    [] f = "add" -> <<VAdd(x, y), d>> [] f = "sub" -> <<VSub(x, y), d>>
    [] f = "mul" -> <<VMul(x, a[n + 1]), d * d>> [] f = "div" -> <<VMul(x, IF a[n + 1] < 0 THEN -1 ELSE 1), Abs(a[n + 1])>>
    [] f = "dot" -> <<<<Dot(x, y)>>, d * d>> [] f = "mag2" -> <<<<Dot(x, x)>>, d * d>>
    [] f = "cross" -> <<IF n = 2 THEN <<x[1] * y[2] - x[2] * y[1]>> ELSE Cross(x, y), d * d>>
    [] f = "max" -> <<<<MaxOf(x)>>, d>>
    [] f = "side" -> <<<<(a[3] - a[1]) * (a[6] - a[2]) - (a[5] - a[1]) * (a[4] - a[2])>>, d * d>>
    [] f = "aspect" -> IF a[2] <= 0 THEN <<<<0>>, 1>> ELSE <<<<a[1]>>, a[2]>>
    [] f = "reflect" -> <<VSub(x, VMul(y, 2 * Dot(x, y))), 1>>
    [] f = "lerp" -> <<VAdd(x, VMul(VSub(y, x), a[2 * n + 1])), 1>>
    [] f = "unlerp" -> LET s == IF a[3] < a[2] THEN -1 ELSE 1 IN <<<<s * (a[1] - a[2])>>, Abs(a[3] - a[2])>>
    [] f = "smooth" -> LET u == a[3] - a[1] v == a[2] - a[1] IN <<<<u * u * (3 * v - 2 * u) * (IF v < 0 THEN -1 ELSE 1)>>, Abs(v * v * v)>>
    [] f = "smoother" -> LET u == a[3] - a[1] IN <<<<u * u * u * (u * (6 * u - 15) + 10)>>, 1>>     \* over a unit span
    [] f = "cslerp" -> LET p(i) == Cut(a, i * n + 1, n) t == a[4 * n + 1] IN <<IF w = 1 THEN DHerm(p(0), p(1), p(2), p(3), t) ELSE Herm(p(0), p(1), p(2), p(3), t), 1>>
    [] f = "ident" -> <<Ident(n), 1>> [] f = "trans" -> <<Trans(Cut(a, 1, nn), n), d>> [] f = "copy" -> <<Cut(a, 1, nn), d>>
    [] f = "mmul" -> <<MMul(Cut(a, 1, nn), Cut(a, nn + 1, nn), n), d * d>> [] f = "msquare" -> <<MMul(Cut(a, 1, nn), Cut(a, 1, nn), n), d * d>>
    [] f = "mvec" -> <<MVec(Cut(a, 1, nn), Cut(a, nn + 1, n), n), d * d>>
    [] f = "det" -> <<<<Det(Cut(a, 1, nn), n)>>, 1>>
    [] f = "inv" -> LET e == TLCEval(Det(a, n)) IN <<VMul(Adj(a, n), IF e < 0 THEN -1 ELSE 1), Abs(e)>>
    [] f = "madd" -> <<VAdd(Cut(a, 1, nn), Cut(a, nn + 1, nn)), d>> [] f = "msub" -> <<VSub(Cut(a, 1, nn), Cut(a, nn + 1, nn)), d>> [] f = "mscale" -> <<VMul(Cut(a, 1, nn), a[nn + 1]), d * d>>
    [] f = "place" -> <<IF n = 0 THEN Shift(a, d) ELSE IF n = 1 THEN Diag(a[1], a[2], a[3], d) ELSE Diag(a[1], a[1], a[1], d), d>>
    [] f = "move" -> <<MMul(Cut(a, 1, 16), IF n = 0 THEN Shift(Cut(a, 17, 3), 1) ELSE IF n = 1 THEN Diag(a[17], a[18], a[19], 1) ELSE Diag(a[17], a[17], a[17], 1), 4), 1>>
    [] f = "qid" -> <<<<0, 0, 0, 1>>, 1>>
    [] f = "qadd" -> <<VAdd(Cut(a, 1, 4), Cut(a, 5, 4)), d>> [] f = "qsub" -> <<VSub(Cut(a, 1, 4), Cut(a, 5, 4)), d>>
    [] f = "qmul" -> <<QMul(Cut(a, 1, 4), Cut(a, 5, 4)), d * d>>
    [] f = "qdiv" -> <<QMul(Cut(a, 1, 4), QConj(Cut(a, 5, 4))), Dot(Cut(a, 5, 4), Cut(a, 5, 4))>>
    [] f = "qinv" -> <<VMul(QConj(a), d), Dot(a, a)>>
    [] f = "qmulf" -> <<VMul(Cut(a, 1, 4), a[5]), d * d>> [] f = "qdivf" -> <<VMul(Cut(a, 1, 4), IF a[5] < 0 THEN -1 ELSE 1), Abs(a[5])>>
    [] f = "qdot" -> <<<<Dot(Cut(a, 1, 4), Cut(a, 5, 4))>>, d * d>> [] f = "qconj" -> <<QConj(a), d>>
    [] f = "qrot" -> <<QRot(Cut(a, 1, 4), Cut(a, 5, 3)), d * d * d>>                                 \* a unit quaternion
    [] f = "qmat" -> <<QMat(a), Dot(a, a)>>
    [] f = "plane" -> <<<<a[1] * a[5] + a[2] * a[6] + a[3] * a[7] + a[4]>>, 1>>
    [] f = "rect" -> <<x \o VAdd(x, y), d>> [] f = "unrect" -> <<x \o VSub(y, x), d>>
    [] f = "rhas" -> <<<<IF RHas(a, a[5], a[6]) THEN 1 ELSE 0>>, 1>>
    [] f = "meet" -> LET m == Meet(Cut(a, 1, 4), Cut(a, 5, 4)) IN IF w = 1 THEN <<IF m = <<>> THEN <<0, 0, 0, 0, 0>> ELSE <<d>> \o m, d>> ELSE <<<<IF m = <<>> THEN 0 ELSE 1>>, 1>>
    [] f = "ahas" -> <<<<IF \A i \in 1..n : a[i] <= a[2 * n + i] /\ a[2 * n + i] < a[n + i] THEN 1 ELSE 0>>, 1>>
    [] f = "cut" -> LET c == CutSide(a, n, a[5]) IN <<c[1] \o c[2], d>>
    [] f = "get" -> <<CutSide(a, n, a[5])[1] \o Cut(a, 1, 4), d>>
    [] f = "addside" -> <<AddSide(a, n, a[5]) \o Cut(a, 1, 4), d>>
    [] f = "contract" -> <<Contract(a, a[5]), d>> [] f = "expand" -> <<Contract(a, -a[5]), d>>
    [] OTHER -> <<<<>>, 0>>
\* results come in sixteenths
Exact(g, r) == g[2] # 0 /\ Len(r) = Len(g[1]) /\ \A i \in 1..Len(r) : r[i] * g[2] = 16 * g[1][i]
\* thousandths
Near(r, x, tol) == Len(r) = Len(x) /\ \A i \in 1..Len(r) : Abs(r[i] - x[i]) <= tol
\* sines of multiples of 7.5 degrees in thousandths
Quarter == <<0, 131, 259, 383, 500, 609, 707, 793, 866, 924, 966, 991, 1000>>
Sine(k) == LET m == ((k % 48) + 48) % 48 IN CASE m <= 12 -> Quarter[m + 1] [] m <= 24 -> Quarter[25 - m] [] m <= 36 -> -Quarter[m - 23] [] OTHER -> -Quarter[49 - m]
Cosine(k) == Sine(k + 12)
Half(deg2) == (deg2 * 2) \div 15      \* whole degrees to steps of 7.5
Root(r, m2) == r >= 0 /\ Max(r - 2, 0) * Max(r - 2, 0) <= 1000000 * m2 /\ 1000000 * m2 <= (r + 2) * (r + 2)   \* r ~ 1000 sqrt(m2), m2 <= 2000
\* v turned about a coordinate axis (axis vector with one non-zero component) by k steps of 7.5 degrees, thousandths
TurnAxis(x, k, v) ==
  LET i == CHOOSE j \in 1..3 : x[j] # 0 s == (IF x[i] < 0 THEN -1 ELSE 1) * Sine(k) c == Cosine(k) j == (i % 3) + 1 h == (j % 3) + 1 IN
  [q \in 1..3 |-> IF q = i THEN 1000 * v[i] ELSE IF q = j THEN c * v[j] - s * v[h] ELSE s * v[j] + c * v[h]]
\* about the diagonal (1,1,1) thirds of a turn permute the axes
TurnDiag(k, v) == CASE k % 48 = 0 -> VMul(v, 1000) [] k % 48 = 16 -> VMul(<<v[3], v[1], v[2]>>, 1000) [] k % 48 = 32 -> VMul(<<v[2], v[3], v[1]>>, 1000)
Unit(x, k) == LET i == CHOOSE j \in 1..3 : x[j] # 0 IN [q \in 1..4 |-> IF q = 4 THEN Cosine(k) ELSE IF q = i THEN (IF x[i] < 0 THEN -1 ELSE 1) * Sine(k) ELSE 0]   \* quaternion of a turn by 2k steps
UpToSign(r, x, tol) == Near(r, x, tol) \/ Near(r, VMul(x, -1), tol)
Same(a) == \A i, j \in 1..3 : a[i] = a[j]
Milli(deg) == (deg * 314159) \div 18000          \* degrees to thousandths of a radian
Good(f, n, w, d, a, r) ==
  CASE f = "mag" -> Len(r) = 1 /\ Root(r[1], Dot(a, a))
    [] f = "norm" -> LET m2 == Dot(a, a) IN Len(r) = n /\ \A i \in 1..n : IF m2 = 0 THEN r[i] = 0 ELSE (a[i] > 0 => r[i] > 0) /\ (a[i] < 0 => r[i] < 0) /\ LET q == Abs(r[i]) IN q <= 1001 /\ Max(q - 1, 0) * Max(q - 1, 0) * m2 <= 1000000 * a[i] * a[i] /\ 1000000 * a[i] * a[i] <= (q + 1) * (q + 1) * m2
    \* refraction with eta e/d along the normal or with eta 1: Snell's law in the cases that are exact; total reflection gives zero
    [] f = "refract" -> LET i == Cut(a, 1, n) m == Cut(a, n + 1, n) e == a[2 * n + 1] c == Dot(i, m) \div (d * d) h == d * d - e * e IN
         IF c # 0 THEN Near(r, VSub(VMul(i, (1000 * e) \div (d * d)), VMul(m, (1000 * (e * c + d)) \div (d * d))), 2)
         ELSE IF h < 0 THEN Near(r, [q \in 1..n |-> 0], 0)
         ELSE LET s == CHOOSE s \in 0..d : s * s = h IN Near(r, VSub(VMul(i, (1000 * e) \div (d * d)), VMul(m, (1000 * s) \div (d * d))), 2)
    [] f = "turn" -> LET x == Cut(a, 1, 3) k == Half(a[4]) v == Cut(a, 5, 3) IN Near(r, IF Same(x) THEN TurnDiag(k, v) ELSE TurnAxis(x, k, v), 2 + 2 * Max(Abs(v[1]), Max(Abs(v[2]), Abs(v[3]))))
    [] f = "axis" -> LET x == Cut(a, 1, 3) i == CHOOSE j \in 1..3 : x[j] # 0 IN Near(r, [q \in 1..4 |-> IF q = 4 THEN Milli(a[4]) ELSE IF q = i THEN (IF x[i] < 0 THEN -1000 ELSE 1000) ELSE 0], 3)
    [] f = "euler" -> Near(r, <<Milli(a[1]), Milli(a[2]), Milli(a[3])>>, 3)
    [] f = "eulerq" -> LET q(i, g) == [j \in 1..4 |-> IF j = 4 THEN Cosine(g \div 15) ELSE IF j = i THEN Sine(g \div 15) ELSE 0]
                           p == QMul(q(2, a[2]), q(1, a[1])) t == QMul([j \in 1..4 |-> p[j] \div 1000], q(3, a[3])) IN Near(r, [j \in 1..4 |-> t[j] \div 1000], 5)
    [] f = "slerp" -> LET x == Cut(a, 1, 3) g == (2 * (a[4] * d + (a[5] - a[4]) * a[6])) \div (30 * d * d) IN UpToSign(r, Unit(x, g), 4)
    [] f = "squad" -> LET x == Cut(a, 1, 3) IN UpToSign(r, Unit(x, Half(IF a[8] = 0 THEN a[4] ELSE a[7]) \div 2), 3)
    [] f = "look" -> LET p(i) == Cut(r, 4 * (i - 1) + 1, 4) fw == VSub(Cut(a, 4, 3), Cut(a, 1, 3)) up == Cut(a, 7, 3) s == Cross(fw, up) IN
         /\ Len(r) = 16 /\ Near(p(1), <<0, 0, 0, 1000>>, 6)
         /\ Near(<<p(2)[1], p(2)[2], p(2)[4]>>, <<0, 0, 1000>>, 6) /\ (IF w = 1 THEN Root(Max(p(2)[3], 0), Dot(fw, fw)) ELSE Root(Max(-p(2)[3], 0), Dot(fw, fw)))
         /\ Abs(p(3)[1]) <= 6 /\ p(3)[2] > 0 /\ p(3)[4] = 1000
         /\ p(4)[1] > 0 /\ Near(Tail(p(4)), <<0, 0, 1000>>, 6) /\ (Dot(s, s) <= 2000 => Root(p(4)[1], Dot(s, s)))
    [] f = "persp" -> Near(r, <<1000, 1000, IF w <= 1 THEN -1000 ELSE 0, 1000, 1000, 1000>>, 3)
    [] f = "ortho" -> Near(r, <<-1000, -1000, IF w = 2 THEN 0 ELSE -1000, 1000, 1000, 1000, 1000, 1000>>, 3)
\* a quaternion made from its matrix is the quaternion again, or its negative
MatQ(d, a, r) == \/ \A i \in 1..4 : r[i] * d = 16 * a[i]
                 \/ \A i \in 1..4 : r[i] * d = -16 * a[i]
Frustum(a, r) == LET q == TLCEval(Clip(Cut(a, 1, 16), Cut(a, 17, 16), Cut(a, 33, 3))) IN r = (IF Inside(q) THEN <<16>> ELSE <<0>>) \/ (OnSide(q) /\ r \in {<<0>>, <<16>>})
\* a sphere is outside when it lies wholly beyond one side: the side is row 4 +- row i of the product
FSphere(a, r) ==
  LET m == TLCEval(MMul(Cut(a, 1, 16), Cut(a, 17, 16), 4)) v == Cut(a, 33, 3) \o <<1>> rad == a[36]
      Row(i, s) == [c \in 1..4 |-> At(m, 4, 3, c - 1) + s * At(m, 4, i - 1, c - 1)]
      N(p) == Dot(Cut(p, 1, 3), Cut(p, 1, 3))
      sides == {Row(i, s) : i \in 1..3, s \in {-1, 1}}
      out == {p \in sides : Dot(p, v) < 0 /\ Dot(p, v) * Dot(p, v) > rad * rad * N(p)} edge == {p \in sides : Dot(p, v) <= 0 /\ Dot(p, v) * Dot(p, v) = rad * rad * N(p)}
  IN r \in {<<0>>, <<16>>} /\ (out # {} => r = <<0>>) /\ (out = {} /\ edge = {} => r = <<16>>)
FBox(a, r) == LET qs == TLCEval({Clip(Cut(a, 1, 16), Cut(a, 17, 16), v) : v \in Corners(Cut(a, 33, 3), Cut(a, 36, 3))}) IN
              /\ r \in {<<0>>, <<16>>} /\ ((\E q \in qs : Inside(q) /\ ~OnSide(q)) => r = <<16>>) /\ (Beyond(qs) => r = <<0>>)
Right(f, n, w, d, apx, a, r) ==
  IF apx THEN Good(f, n, w, d, a, r)
  ELSE CASE f = "matq" -> Len(r) = 4 /\ MatQ(d, a, r)
         [] f = "frustum" -> Frustum(a, r) [] f = "fsphere" -> FSphere(a, r) [] f = "fbox" -> FBox(a, r)
         [] OTHER -> Exact(Give(f, n, w, d, a), r)
=============================================================================
