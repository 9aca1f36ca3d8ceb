------------------------------ MODULE CellInt ------------------------------
(* Exact integrals of monomials over cells bounded by lattice polygons and   *)
(* circles.  A value is <<r, s>>: r + s * pi, both rational.                 *)
EXTENDS Rat, TLC

\* ---- values r + s pi ----
VZero == <<QZero, QZero>>
VAdd(u, v) == <<QAdd(u[1], v[1]), QAdd(u[2], v[2])>>
VScale(k, v) == <<QMul(k, v[1]), QMul(k, v[2])>>
VNeg(v) == <<QNeg(v[1]), QNeg(v[2])>>
VSub(u, v) == VAdd(u, VNeg(v))
RECURSIVE VSum(_)
VSum(s) == IF s = <<>> THEN VZero ELSE VAdd(Head(s), VSum(Tail(s)))

RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE DFact(_) \* double factorial, with (-1)!! = 0!! = 1
DFact(n) == IF n <= 0 THEN 1 ELSE n * DFact(n - 2)

\* all <<i, j>> in (0..a) \X (0..b), as a sequence
Pairs(a, b) == [k \in 1..((a + 1) * (b + 1)) |-> <<(k - 1) \div (b + 1), (k - 1) % (b + 1)>>]

\* integral over t in [0, 1] of x^a y^b along the segment from p to q
SegInt(p, q, a, b) ==
  LET d1 == QSub(q[1], p[1])  d2 == QSub(q[2], p[2])
      term(ij) == LET i == ij[1] j == ij[2] IN
        QMul(Q(Binom(a, i) * Binom(b, j), i + j + 1),
             QMul(QMul(QPow(p[1], a - i), QPow(d1, i)), QMul(QPow(p[2], b - j), QPow(d2, j))))
      ps == Pairs(a, b)
  IN QSumSeq([k \in 1..Len(ps) |-> term(ps[k])])

\* integral of x^a y^b over the polygon with vertices v, counterclockwise
\* positive: (1 / (a + 1)) * boundary integral of x^(a+1) y^b dy
PolygonInt(v, a, b) ==
  LET n == Len(v)
      side(k) == LET p == v[k] q == v[(k % n) + 1] IN
                 IF p[2] = q[2] THEN QZero
                 ELSE QMul(QSub(q[2], p[2]), SegInt(p, q, a + 1, b))
  IN QMul(<<1, a + 1>>, QSumSeq([k \in 1..n |-> side(k)]))

\* the same by Green's theorem with -y^(b+1) x^a dx; both must agree
PolygonIntDx(v, a, b) ==
  LET n == Len(v)
      side(k) == LET p == v[k] q == v[(k % n) + 1] IN
                 IF p[1] = q[1] THEN QZero
                 ELSE QMul(QSub(p[1], q[1]), SegInt(p, q, a, b + 1))
  IN QMul(<<1, b + 1>>, QSumSeq([k \in 1..n |-> side(k)]))

\* integral of u^i v^j over the disc of radius r about the origin, over pi
Disc0(r, i, j) == IF i % 2 = 1 \/ j % 2 = 1 THEN QZero
  ELSE QMul(QPow(r, i + j + 2),
            Q(2 * DFact(i - 1) * DFact(j - 1), (i + j + 2) * DFact(i + j)))
DiscInt(c, r, a, b) == \* rational multiple of pi
  LET ps == Pairs(a, b)
      term(ij) == LET i == ij[1] j == ij[2] IN
        QMul(QMul(QInt(Binom(a, i) * Binom(b, j)),
                  QMul(QPow(c[1], a - i), QPow(c[2], b - j))), Disc0(r, i, j))
  IN QSumSeq([k \in 1..Len(ps) |-> term(ps[k])])

\* contour: [kind |-> "poly", v] or [kind |-> "disc", c, r]
ContourInt(k, a, b) == IF k.kind = "poly" THEN <<PolygonInt(k.v, a, b), QZero>>
                       ELSE <<QZero, DiscInt(k.c, k.r, a, b)>>
\* cell: sequence of contours, the outer one first; holes are removed
CellIntegral(cell, a, b) ==
  VSub(ContourInt(cell[1], a, b),
       VSum([k \in 1..(Len(cell) - 1) |-> ContourInt(cell[k + 1], a, b)]))

\* integral over the circle (arc length) of u^i v^j, over pi
Circ0(r, i, j) == IF i % 2 = 1 \/ j % 2 = 1 THEN QZero
  ELSE QMul(QPow(r, i + j + 1), Q(2 * DFact(i - 1) * DFact(j - 1), DFact(i + j)))
CircleInt(c, r, a, b) ==
  LET ps == Pairs(a, b)
      term(ij) == LET i == ij[1] j == ij[2] IN
        QMul(QMul(QInt(Binom(a, i) * Binom(b, j)),
                  QMul(QPow(c[1], a - i), QPow(c[2], b - j))), Circ0(r, i, j))
  IN QSumSeq([k \in 1..Len(ps) |-> term(ps[k])])
\* arc length integral over a contour: per side a rational factor and the
\* squared length of the side (the square root is taken by the harness), and
\* a multiple of pi
ArcParts(k, a, b) ==
  IF k.kind = "disc" THEN [sides |-> <<>>, pi |-> CircleInt(k.c, k.r, a, b)]
  ELSE LET n == Len(k.v)
           side(m) == LET p == k.v[m] q == k.v[(m % n) + 1] d1 == QSub(q[1], p[1])
                          d2 == QSub(q[2], p[2]) IN
             [len2 |-> QAdd(QMul(d1, d1), QMul(d2, d2)), f |-> SegInt(p, q, a, b)]
       IN [sides |-> [m \in 1..n |-> side(m)], pi |-> QZero]
=============================================================================
