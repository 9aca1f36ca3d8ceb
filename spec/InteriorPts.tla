---------------------------- MODULE InteriorPts ----------------------------
(* C06: which points of a grid, or of the plane, lie in a cell and how far   *)
(* from its boundary; decided exactly for lattice polygons and circles.      *)
EXTENDS CellInt, Json, FiniteSets

CONSTANTS Cells, Grids, Tols, Probes
\* Cells: [id, cell, gap]: gap bounds half the distance between neighbouring
\* boundary samples.  Grids: <<rows, cols>>.  Tols: <<atol, rtol>>.
\* Probes: number of probe points per direction, over 3/2 of the bounding box.

VARIABLES kase
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
RECURSIVE FoldQ(_, _, _)
FoldQ(f(_, _), x, s) == IF s = <<>> THEN x ELSE FoldQ(f, f(x, Head(s)), Tail(s))
Sq(a) == QMul(a, a)

\* ---- bounding box of the outer contour ----
Box(c) == IF c.kind = "disc"
          THEN [lo |-> <<QSub(c.c[1], c.r), QSub(c.c[2], c.r)>>,
                hi |-> <<QAdd(c.c[1], c.r), QAdd(c.c[2], c.r)>>]
          ELSE LET xs == [k \in 1..Len(c.v) |-> c.v[k][1]]
                   ys == [k \in 1..Len(c.v) |-> c.v[k][2]]
               IN [lo |-> <<FoldQ(QMin, xs[1], xs), FoldQ(QMin, ys[1], ys)>>,
                   hi |-> <<FoldQ(QMax, xs[1], xs), FoldQ(QMax, ys[1], ys)>>]
Width(b) == QSub(b.hi[1], b.lo[1])
Height(b) == QSub(b.hi[2], b.lo[2])

\* ---- strictly inside a contour ----
Cross(p, q, x) == QSub(QMul(QSub(q[1], p[1]), QSub(x[2], p[2])),
                       QMul(QSub(q[2], p[2]), QSub(x[1], p[1])))
Crosses(p, q, x) == \* the upward or downward half-open crossing rule
  IF QLe(p[2], x[2]) /\ QLt(x[2], q[2]) THEN (IF QLt(QZero, Cross(p, q, x)) THEN 1 ELSE 0)
  ELSE IF QLe(q[2], x[2]) /\ QLt(x[2], p[2]) THEN (IF QLt(Cross(p, q, x), QZero) THEN -1 ELSE 0)
  ELSE 0
RECURSIVE Wind(_, _, _)
Wind(v, k, x) == IF k = 0 THEN 0 ELSE Crosses(v[k], v[(k % Len(v)) + 1], x) + Wind(v, k - 1, x)
Inside(c, x) == IF c.kind = "disc"
  THEN QLt(QAdd(Sq(QSub(x[1], c.c[1])), Sq(QSub(x[2], c.c[2]))), Sq(c.r))
  ELSE Wind(c.v, Len(c.v), x) # 0

\* ---- distance to a contour compared with a threshold t >= 0 ----
SegDist2(p, q, x) ==
  LET d == <<QSub(q[1], p[1]), QSub(q[2], p[2])>>
      e == <<QSub(x[1], p[1]), QSub(x[2], p[2])>>
      l2 == QAdd(Sq(d[1]), Sq(d[2]))
      dot == QAdd(QMul(d[1], e[1]), QMul(d[2], e[2]))
      e2 == QAdd(Sq(e[1]), Sq(e[2]))
  IN IF QLe(dot, QZero) THEN e2
     ELSE IF QLe(l2, dot) THEN QAdd(Sq(QSub(x[1], q[1])), Sq(QSub(x[2], q[2])))
     ELSE QSub(e2, QDiv(Sq(dot), l2))
\* what is needed to compare the distance with thresholds: the squared
\* distance to a polygon, the squared distance to the centre of a disc
Reach(c, x) == IF c.kind = "disc" THEN QAdd(Sq(QSub(x[1], c.c[1])), Sq(QSub(x[2], c.c[2])))
  ELSE LET s == [k \in 1..Len(c.v) |-> SegDist2(c.v[k], c.v[(k % Len(c.v)) + 1], x)]
       IN FoldQ(QMin, s[1], s)
Reaches(cell, x) == [k \in 1..Len(cell) |-> Reach(cell[k], x)]
FartherOne(c, m, t) == \* distance to contour c is greater than t
  IF c.kind = "poly" THEN QLt(Sq(t), m)
  ELSE QLt(Sq(QAdd(c.r, t)), m) \/ (QLt(t, c.r) /\ QLt(m, Sq(QSub(c.r, t))))
FartherR(cell, rs, t) == \A k \in 1..Len(cell) : FartherOne(cell[k], rs[k], t)
Farther(cell, x, t) == FartherR(cell, Reaches(cell, x), t)
InCell(cell, x) == Inside(cell[1], x) /\ \A k \in 2..Len(cell) : ~Inside(cell[k], x)

\* ---- the interior grid: "in", "out", or "any" when too close to call ----
Tol(cell, at, rt) == LET b == Box(cell[1]) IN QMax(at, QMul(rt, QMin(Width(b), Height(b))))
\* code measures the distance d* to the samples: d <= d* <= sqrt(d^2 + gap^2)
\* <= d + gap; a point with d + gap < t is surely rejected
GridClass(k, in, rs, t) ==
  LET near == QLt(QAdd(k.gap, <<1, 50>>), t) IN
  IF ~in THEN (IF near \/ FartherR(k.cell, rs, <<1, 100>>) THEN "out" ELSE "any")
  ELSE IF FartherR(k.cell, rs, QAdd(QCeil(t, 100), <<1, 100>>)) THEN "in"
  ELSE IF near /\ ~FartherR(k.cell, rs, QSub(QFloor(QSub(t, k.gap), 100), <<1, 100>>)) THEN "out"
  ELSE "any"
At(lo, hi, i, n) == QAdd(lo, QMul(Q(i, n - 1), QSub(hi, lo)))
GridPoint(b, i, j, g) == <<At(b.lo[1], b.hi[1], j, g[2]), At(b.lo[2], b.hi[2], i, g[1])>>
Grid(k, g) == \* for every grid point, its class for each tolerance
  LET b == Box(k.cell[1])
      ts == [m \in 1..Len(Tols) |-> Tol(k.cell, Tols[m][1], Tols[m][2])] IN
  [n \in 1..(g[1] * g[2]) |->
     LET x == GridPoint(b, (n - 1) \div g[2], (n - 1) % g[2], g)
         in == InCell(k.cell, x)
         rs == Reaches(k.cell, x)
     IN [m \in 1..Len(Tols) |-> GridClass(k, in, rs, ts[m])]]

\* ---- probe points around the cell: inside, outside or near the boundary ----
Probe(k) ==
  LET b == Box(k.cell[1])
      w == QMul(<<1, 4>>, Width(b))  h == QMul(<<1, 4>>, Height(b))
      pt(n) == <<At(QSub(b.lo[1], w), QAdd(b.hi[1], w), (n - 1) % Probes, Probes),
                 At(QSub(b.lo[2], h), QAdd(b.hi[2], h), (n - 1) \div Probes, Probes)>>
  IN [n \in 1..(Probes * Probes) |->
       LET x == pt(n) IN
       [x |-> x, cls |-> IF ~Farther(k.cell, x, <<1, 20>>) THEN "near"
                         ELSE IF InCell(k.cell, x) THEN "in" ELSE "out"]]

Init == kase \in [c : 1..Len(Cells), g : Grids]
Next == UNCHANGED kase
Spec == Init /\ [][Next]_kase
Emit == LET k == Cells[kase.c] IN
  PrintT("@@" \o ToJson([cell |-> k.id, grid |-> kase.g, tols |-> Tols,
    box |-> Box(k.cell[1]), cls |-> Grid(k, kase.g)]))
EmitProbe == (kase.g = CHOOSE g \in Grids : TRUE) =>
  PrintT("@@" \o ToJson([cell |-> Cells[kase.c].id, probe |-> Probe(Cells[kase.c])]))
\* the cells are what they are meant to be: holes inside the outer contour
Sane == LET k == Cells[kase.c] b == Box(k.cell[1]) IN
  /\ QLt(QZero, Width(b)) /\ QLt(QZero, Height(b))
  /\ \A m \in 2..Len(k.cell) : LET q == IF k.cell[m].kind = "disc" THEN k.cell[m].c ELSE k.cell[m].v[1]
                               IN Inside(k.cell[1], q)
=============================================================================
