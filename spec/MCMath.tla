------------------------------- MODULE MCMath -------------------------------
(* The specification of the mathematics checked against the laws of algebra on every small case; the cases are the tests replayed into the code. *)
EXTENDS Scalar, Json
CONSTANTS Kind, Deep, Emit
VARIABLES c, key
T3 == {-1, 0, 1}
V(n, S) == [1..n -> S]
M2Cases == {<<m, v>> : m \in V(8, T3), v \in {<<1, 2>>}}
Minors == {<<1, 1, 0, 2, -1, 1, 0, 1, 1>>, <<0, 0, 1, 1, 0, 0, 0, 1, 0>>, <<2, 0, -1, 1, 1, 1, -1, 0, 1>>}
M3Cases == {<<m, n>> : m \in (IF Deep THEN V(9, T3) ELSE {m \in V(9, T3) : m[2] # -1 /\ m[6] # 1 /\ m[7] # 0}), n \in (IF Deep THEN Minors ELSE {<<1, 1, 0, 2, -1, 1, 0, 1, 1>>})}
M4Cases == {<<x, y>> : x \in {<<a[1], a[2], 0, 1, a[3], 1, a[4], 0, 0, a[5], 1, a[6], a[7], 0, a[8], 1>> : a \in (IF Deep THEN V(8, {-1, 0, 2}) ELSE {a \in V(8, {-1, 0, 2}) : a[2] # 0 /\ a[5] # -1 /\ a[7] # 2})}, y \in {<<1, 2, 0, 1, 0, 1, -1, 0, 3, 0, 1, 1, 0, -1, 0, 1>>}}
QCases == {<<p, q, <<1, -2, 3>>>> : p \in V(4, T3), q \in V(4, T3)}
Rects == {<<x, y, w, h>> : x \in 0..2, y \in 0..1, w \in -2..3, h \in {-1, 0, 2}}
RCases == Rects \X Rects
BoxCases == {<<<<x, y, x + w, y + h>>, s, k>> : x \in -1..1, y \in 0..1, w \in 0..4, h \in 0..3, s \in 0..3, k \in 0..5}
HCases == {<<h>> : h \in {h \in 0..65535 : Deep \/ h % 1024 \in {0, 1, 2, 3, 5, 511, 512, 513, 1022, 1023} \/ h % 53 = 0}}
SCases == {<<x, y, d>> : x \in -24..24, y \in (-7..7) \ {0}, d \in {1, 2, 3, 4, 8}}
Cases == CASE Kind = "m2" -> M2Cases [] Kind = "m3" -> M3Cases [] Kind = "m4" -> M4Cases [] Kind = "q" -> QCases [] Kind = "r" -> RCases [] Kind = "b" -> BoxCases [] Kind = "s" -> SCases [] Kind = "h" -> HCases
\* spread over the workers
Key(x) == CASE Kind \in {"m2", "q", "m3", "m4"} -> LET m == x[1] IN (m[1] + 1) + 3 * (m[2] + 1) + 9 * (m[4] + 1) [] Kind = "r" -> LET m == x[1] IN m[3] + 5 * m[1] + 2 [] Kind = "h" -> x[1] % 40 [] OTHER -> (IF Kind = "b" THEN x[1][1] + 1 + 3 * x[3] ELSE (x[1] + 24) % 20)
Out(x) == IF Emit THEN PrintT(<<"VP-HIST", ToJson(<<Kind, x>>)>>) ELSE TRUE
Init == c = <<>> /\ key \in 0..40
Next == key >= 0 /\ key' = -1 /\ c' \in {x \in Cases : Key(x) = key} /\ Out(c')
Spec == Init /\ [][Next]_<<c, key>>
Prod(x, y, n) ==
  /\ Det(MMul(x, y, n), n) = Det(x, n) * Det(y, n)
  /\ Trans(MMul(x, y, n), n) = MMul(Trans(y, n), Trans(x, n), n)
  /\ MMul(x, Ident(n), n) = x /\ MMul(Ident(n), x, n) = x
  /\ LET v == [i \in 1..n |-> i - 2] IN MVec(MMul(x, y, n), v, n) = MVec(x, MVec(y, v, n), n)
  /\ MMul(x, Adj(x, n), n) = VMul(Ident(n), Det(x, n)) /\ MMul(Adj(x, n), x, n) = VMul(Ident(n), Det(x, n))
QLaw(p, q, v) ==
  LET pq == QMul(p, q) N(z) == Dot(z, z) IN
  /\ N(pq) = N(p) * N(q) /\ QMul(p, QConj(p)) = <<0, 0, 0, N(p)>>
  /\ QRot(pq, v) = QRot(p, QRot(q, v)) /\ N(QRot(p, v)) = N(p) * N(p) * N(v)
  /\ Cut(MVec(QMat(p), v \o <<1>>, 4), 1, 3) = QRot(p, v)
  /\ QMul(QMul(pq, QConj(q)), <<0, 0, 0, 1>>) = VMul(p, N(q))
  /\ (N(p) # 0 => LET t == Cut(p, 1, 3) IN VSub(QRot(p, t), VMul(t, N(p))) = <<0, 0, 0>>)       \* its axis stays
  /\ Dot(Cross(v, Cut(p, 1, 3)), v) = 0
RLaw(r, s) ==
  LET m == Meet(r, s) IN
  /\ m = Meet(s, r)
  /\ \A x \in -3..6, y \in -2..4 : (RHas(r, x, y) /\ RHas(s, x, y)) = (m # <<>> /\ RHas(m, x, y))
BLaw(b, s, k) ==
  LET e == CutSide(b, s, k) A(z) == (z[3] - z[1]) * (z[4] - z[2]) In(z, x, y) == z[1] <= x /\ x < z[3] /\ z[2] <= y /\ y < z[4] IN
  /\ A(e[1]) + A(e[2]) = A(b)
  /\ \A x \in -2..7, y \in -1..6 : In(b, x, y) = (In(e[1], x, y) \/ In(e[2], x, y)) /\ ~(In(e[1], x, y) /\ In(e[2], x, y))
  /\ LET g == AddSide(b, s, k) IN CutSide(<<Min(b[1], g[1]), Min(b[2], g[2]), Max(b[3], g[3]), Max(b[4], g[4])>>, s, k) = <<g, b>>
  /\ LET w == Contract(b, -k) IN Contract(w, k) = b
SLaw(x, y, d) ==
  /\ d * Floor(x, d) <= x /\ x < d * Floor(x, d) + d /\ Ceil(x, d) = -Floor(-x, d)
  /\ 2 * Abs(x - d * Round(x, d)) <= d /\ Round(-x, d) = -Round(x, d)
  /\ Abs(Mod(x, y)) < Abs(y) /\ (x - Mod(x, y)) % Abs(y) = 0 /\ (Mod(x, y) # 0 => Sg(Mod(x, y)) = Sg(x))
  /\ \E r \in -7..7 : Rem(x, y, 16, r)
  /\ Wrap(x * 15) \in -180..179 /\ (x * 15 - Wrap(x * 15)) % 360 = 0
HLaw(h) == HNan(h) \/ LET x == Widen(h) IN /\ Nearest(x, h) /\ (h % 32768 < 31744 => ~Nearest(x, h + 1)) /\ (h % 32768 > 0 => ~Nearest(x, h - 1))
                           /\ \E s \in 0..1, e \in 0..255 : x[2] \div 128 = s * 256 + e
Law == CASE key >= 0 -> TRUE [] Kind = "m2" -> Prod(Cut(c[1], 1, 4), Cut(c[1], 5, 4), 2) [] Kind = "m3" -> Prod(c[1], c[2], 3) [] Kind = "m4" -> Prod(c[1], c[2], 4)
         [] Kind = "q" -> QLaw(c[1], c[2], c[3]) [] Kind = "r" -> RLaw(c[1], c[2]) [] Kind = "b" -> BLaw(c[1], c[2], c[3]) [] Kind = "s" -> SLaw(c[1], c[2], c[3]) [] Kind = "h" -> HLaw(c[1])
=============================================================================
