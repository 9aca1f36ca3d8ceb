-------------------------------- MODULE Rat --------------------------------
(* Exact arithmetic: rationals <<num, den>>, den > 0, in lowest terms, and   *)
(* Gaussian rationals <<re, im, den>> for plane geometry.                    *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE GcdNat(_, _)
GcdNat(a, b) == IF b = 0 THEN a ELSE GcdNat(b, a % b)
Gcd(a, b) == GcdNat(Abs(a), Abs(b))

\* ---- rationals ----
Q(n, d) == LET g == Gcd(n, d)
               s == IF d < 0 THEN -1 ELSE 1
           IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
QInt(n) == <<n, 1>>
QZero == <<0, 1>>
QOne == <<1, 1>>
QAdd(a, b) == LET g == Gcd(a[2], b[2])
              IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == Gcd(a[1], b[2])
                  h == Gcd(b[1], a[2])
                  gg == IF g = 0 THEN 1 ELSE g
                  hh == IF h = 0 THEN 1 ELSE h
              IN Q((a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg))
QInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
QDiv(a, b) == QMul(a, QInv(b))
\* comparison without large products: integer parts first, then the
\* reciprocals of the fractional parts
RECURSIVE QLt(_, _)
QLt(a, b) == LET fa == a[1] \div a[2]  fb == b[1] \div b[2]
                 ra == a[1] % a[2]     rb == b[1] % b[2]
             IN IF fa # fb THEN fa < fb
                ELSE IF rb = 0 THEN FALSE
                ELSE IF ra = 0 THEN TRUE
                ELSE QLt(<<b[2], rb>>, <<a[2], ra>>)
QLe(a, b) == ~QLt(b, a)
\* the nearest multiples of 1/n above and below
QCeil(a, n) == Q(-((-(a[1] * n)) \div a[2]), n)
QFloor(a, n) == Q((a[1] * n) \div a[2], n)
RECURSIVE QPow(_, _)
QPow(a, k) == IF k = 0 THEN QOne ELSE QMul(a, QPow(a, k - 1))
RECURSIVE QSumSeq(_)
QSumSeq(s) == IF s = <<>> THEN QZero ELSE QAdd(Head(s), QSumSeq(Tail(s)))

\* exact division of a negative numerator: TLA+ \div floors, so divide |n|
\* (Q is only called with exact divisors of n and d, hence no rounding)

\* ---- Gaussian rationals ----
G(x, y, d) == LET g == Gcd(Gcd(x, y), d)
                  s == IF d < 0 THEN -1 ELSE 1
              IN <<s * (x \div g), s * (y \div g), s * (d \div g)>>
GInt(x, y) == <<x, y, 1>>
GZero == <<0, 0, 1>>
GOne == <<1, 0, 1>>
GAdd(a, b) == LET g == Gcd(a[3], b[3])
                  p == b[3] \div g
                  q == a[3] \div g
              IN G(a[1] * p + b[1] * q, a[2] * p + b[2] * q, q * b[3])
GNeg(a) == <<-a[1], -a[2], a[3]>>
GSub(a, b) == GAdd(a, GNeg(b))
GMul(a, b) == G(a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1], a[3] * b[3])
GConj(a) == <<a[1], -a[2], a[3]>>
\* a / b = a * conj(b) * den(b) / |num b|^2
GDiv(a, b) == LET m == GMul(<<a[1], a[2], a[3]>>, <<b[1], -b[2], 1>>)
              IN G(m[1] * b[3], m[2] * b[3], m[3] * (b[1] * b[1] + b[2] * b[2]))
GIsZero(a) == a[1] = 0 /\ a[2] = 0
=============================================================================
