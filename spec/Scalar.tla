------------------------------- MODULE Scalar -------------------------------
(* Scalars: rounding, remainders, signs, bounds, angles, the elementary functions at tabulated points, half floats. *)
EXTENDS LinAlg
Sg(x) == IF x < 0 THEN -1 ELSE 1
Floor(x, d) == x \div d
Ceil(x, d) == -((-x) \div d)
Round(x, d) == Sg(x) * ((2 * Abs(x) + d) \div (2 * d))
Mod(x, y) == Sg(x) * (Abs(x) % Abs(y))
Clamp(x, a, b) == IF x < a THEN a ELSE IF x > b THEN b ELSE x
One(b) == IF b THEN <<<<1>>, 1>> ELSE <<<<0>>, 1>>
GiveS(f, n, w, d, a) ==
  CASE f = "floor" -> <<<<Floor(a[1], d)>>, 1>> [] f = "ceil" -> <<<<Ceil(a[1], d)>>, 1>> [] f = "round" -> <<<<Round(a[1], d)>>, 1>>
    [] f = "mod" -> <<<<Mod(a[1], a[2])>>, d>>
    [] f = "copysign" -> <<<<Sg(a[2]) * Abs(a[1])>>, d>> [] f = "sign" -> <<<<Sg(a[1])>>, 1>> [] f = "sign0" -> <<<<IF a[1] = 0 THEN 0 ELSE Sg(a[1])>>, 1>> [] f = "abs" -> <<<<Abs(a[1])>>, d>>
    [] f = "clamp" -> <<<<Clamp(a[1], a[2], a[3])>>, d>> [] f = "clamp01" -> <<<<Clamp(a[1], 0, d)>>, d>>
    [] f = "min" -> <<<<IF n = 2 THEN Min(a[1], a[2]) ELSE Min(a[1], Min(a[2], a[3]))>>, d>> [] f = "max3" -> <<<<IF n = 2 THEN Max(a[1], a[2]) ELSE Max(a[1], Max(a[2], a[3]))>>, d>>
    [] f = "between" -> One(a[2] <= a[1] /\ IF w = 1 THEN a[1] < a[3] ELSE a[1] <= a[3])
    [] OTHER -> Give(f, n, w, d, a)
\* r/16 is the remainder of x by y with the quotient rounded to nearest (either way between two)
Rem(x, y, d, r) == LET R == (r * d) \div 16 IN r * d = 16 * R /\ (x - R) % Abs(y) = 0 /\ 2 * Abs(R) <= Abs(y)
\* degrees, wrapped
Wrap(x) == ((x + 180) % 360) - 180
Ang(r, x, tol) == Near(r, <<Milli(x)>>, tol) \/ (Abs(x) = 180 /\ Near(r, <<-Milli(x)>>, tol))
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
GoodS(f, n, w, d, a, r) ==
  CASE f = "rad" -> Near(r, <<Milli(a[1])>>, 2) [] f = "deg" -> Near(r, <<1000 * a[1]>>, 1)
    [] f = "diff" -> Ang(r, Wrap(a[2] - a[1]), 3)
    [] f = "sin" -> LET k == a[1] \div 15 IN Near(r, <<Sine(k), Cosine(k)>>, 1)       \* angles in half degrees, multiples of 7.5
    [] f = "tan" -> LET k == a[1] \div 15 IN Len(r) = 1 /\ Abs(r[1]) < 20000 /\ Abs(r[1] * Cosine(k) - 1000 * Sine(k)) <= 2000 + Abs(r[1])
    [] f \in {"asin", "acos", "atan"} -> Near(r, <<Milli(a[1])>>, 2) [] f = "atan2" -> Ang(r, a[1], 2)
    [] f = "sqrt" -> Len(r) = 1 /\ Root(r[1], a[1]) [] f = "hypot" -> Len(r) = 1 /\ Root(r[1], a[1] * a[1] + a[2] * a[2])
    [] f = "rsqrt" -> Len(r) = 1 /\ r[1] > 0 /\ Max(r[1] - 1, 0) * Max(r[1] - 1, 0) * a[1] <= 1000000 /\ 1000000 <= (r[1] + 1) * (r[1] + 1) * a[1]
    [] f = "pow" -> Near(r, <<IF a[2] >= 0 THEN 1000 * Pow(a[1], a[2]) ELSE Sg(a[1]) * (1000 \div Pow(Abs(a[1]), -a[2])) * (IF a[2] % 2 = 0 THEN Sg(a[1]) ELSE 1)>>, 1)
    [] f = "exp2" -> Near(r, <<IF a[1] >= 0 THEN 1000 * Pow(2, a[1]) ELSE 1000 \div Pow(2, -a[1])>>, 2)
    [] f = "log2" -> Len(r) = 1 /\ r[1] % 1000 = 0 /\ Pow(2, r[1] \div 1000) = a[1]
    [] f = "explog" -> Near(r, <<1000 * a[1], 1000 * a[1]>>, 1)
    [] OTHER -> Good(f, n, w, d, a, r)
RightS(f, n, w, d, apx, a, r) ==
  IF apx THEN GoodS(f, n, w, d, a, r)
  ELSE CASE f = "rem" -> Len(r) = 1 /\ Rem(a[1], a[2], d, r[1])
         [] f \in {"matq", "frustum", "fsphere", "fbox"} -> Right(f, n, w, d, apx, a, r)
         [] OTHER -> Exact(GiveS(f, n, w, d, a), r)
(* half floats: sign, five exponent bits, ten fraction bits; x is the 32-bit float in two limbs <<low, high>> *)
RECURSIVE Top(_)
Top(m) == IF m = 1 THEN 0 ELSE 1 + Top(m \div 2)
FBits(s, e, m) == <<m % 65536, s * 32768 + e * 128 + m \div 65536>>
Widen(h) ==
  LET s == h \div 32768 e == (h \div 1024) % 32 m == h % 1024 IN
  CASE e = 0 /\ m = 0 -> FBits(s, 0, 0)
    [] e = 0 /\ m # 0 -> LET k == Top(m) IN FBits(s, 103 + k, (m - Pow(2, k)) * Pow(2, 23 - k))
    [] e = 31 -> FBits(s, 255, m * 8192)
    [] OTHER -> FBits(s, e + 112, m * 8192)
IsNan(x) == (x[2] \div 128) % 256 = 255 /\ (x[2] % 128 # 0 \/ x[1] # 0)
HNan(h) == (h \div 1024) % 32 = 31 /\ h % 1024 # 0
\* h is a nearest half to x
Nearest(x, h) ==
  LET s == x[2] \div 32768 e == (x[2] \div 128) % 256 m == (x[2] % 128) * 65536 + x[1] g == h % 32768
      S == IF e = 0 THEN m ELSE m + 8388608
      eh == e - 112
      sh == IF eh >= 1 THEN 13 ELSE 14 - eh        \* bits dropped
  IN /\ h \div 32768 = s
     /\ IF e = 255 THEN g = 31744
        ELSE IF eh >= 31 THEN g = 31744
        ELSE IF sh > 24 THEN g = 0
        ELSE LET p == Pow(2, sh) q == S \div p rem == S % p base == IF eh >= 1 THEN (eh - 1) * 1024 ELSE 0 IN
             \/ 2 * rem <= p /\ g = base + q
             \/ 2 * rem >= p /\ g = base + q + 1
Half1(h, x, back) == IF HNan(h) THEN IsNan(x) /\ HNan(back) /\ x[2] \div 32768 = h \div 32768 /\ back \div 32768 = h \div 32768 ELSE x = Widen(h) /\ back = h
ToHalf(x, h) == IF IsNan(x) THEN HNan(h) /\ h \div 32768 = x[2] \div 32768 ELSE Nearest(x, h)
=============================================================================
