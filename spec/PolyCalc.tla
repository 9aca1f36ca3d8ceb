------------------------------ MODULE PolyCalc ------------------------------
(* C11: calculus of polynomials, special polynomials, and the judgement of   *)
(* recorded anti-Laplacians.                                                 *)
EXTENDS Poly, Json, Sequences

CONSTANTS Polys, Subs, Points, Triangles, LegDeg, Anti
\* Polys: lists of terms; Subs: pairs of lists of terms; Points: <<x, y>>;
\* Triangles: three lattice points; Anti: records [p, a] of recorded terms

VARIABLE what
vars == <<what>>
Init == what \in {[kind |-> "calc", k |-> k] : k \in 1..Len(Polys)}
      \cup {[kind |-> "compose", k |-> k, s |-> s] : k \in 1..Len(Polys), s \in 1..Len(Subs)}
      \cup {[kind |-> "bary", k |-> k] : k \in 1..Len(Triangles)}
      \cup {[kind |-> "leg", k |-> k] : k \in 0..LegDeg}
      \cup {[kind |-> "anti", k |-> k] : k \in 1..Len(Anti)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

P == PList(Polys[what.k])

\* ---- barycentric coordinates: affine, one at their vertex, zero at the others
X == Term(QOne, 1, 0)
Y == Term(QOne, 0, 1)
I(n) == QInt(n)
Area2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Bary(a, b, c) == \* the coordinate of a in the triangle a, b, c
  PScale(Q(1, Area2(a, b, c)),
    PList(<<<<I(b[2] - c[2]), 1, 0>>, <<I(c[1] - b[1]), 0, 1>>, <<I(b[1] * c[2] - c[1] * b[2]), 0, 0>>>>))
Tri == Triangles[what.k]
T(i) == Tri[((i - 1) % 3) + 1]
Flat == Area2(T(1), T(2), T(3)) = 0
Coords == [i \in 1..3 |-> Bary(T(i), T(i + 1), T(i + 2))]

\* ---- Legendre polynomials, by Bonnet's recursion
RECURSIVE Leg(_)
Leg(n) == IF n = 0 THEN PConst(QOne) ELSE IF n = 1 THEN X
  ELSE PScale(Q(1, n), PSub(PScale(I(2 * n - 1), PMul(X, Leg(n - 1))), PScale(I(n - 1), Leg(n - 2))))
\* integral over [-1, 1] of a polynomial in x
Int1(p) == QSumF([m \in DOMAIN p |-> IF m[1] % 2 = 1 THEN QZero ELSE QMul(p[m], Q(2, m[1] + 1))], DOMAIN p)

Record ==
  CASE what.kind = "calc" ->
        [p |-> Terms(P), dx |-> Terms(DX(P)), dy |-> Terms(DY(P)), lap |-> Terms(Lap(P)),
         at |-> [i \in 1..Len(Points) |-> Eval(P, Points[i][1], Points[i][2])]]
    [] what.kind = "compose" ->
        LET q1 == PList(Subs[what.s][1]) q2 == PList(Subs[what.s][2]) IN
        [p |-> Terms(P), q1 |-> Terms(q1), q2 |-> Terms(q2),
         r |-> IF Deg(P) * 2 > 8 THEN <<>> ELSE <<Terms(Compose(P, q1, q2))>>]
    [] what.kind = "bary" ->
        [z |-> Tri, flat |-> Flat, ell |-> IF Flat THEN <<>> ELSE [i \in 1..3 |-> Terms(Coords[i])]]
    [] what.kind = "leg" ->
        [n |-> what.k, p |-> Terms(Leg(what.k)),
         q |-> IF what.k < 2 THEN Terms(Leg(what.k)) ELSE Terms(PSub(Leg(what.k), Leg(what.k - 2))),
         sq |-> IF what.k < 2 THEN 1 ELSE 4 * what.k - 2]
    [] what.kind = "anti" ->
        LET a == PList(Anti[what.k].a) p == PList(Anti[what.k].p) IN
        [k |-> what.k, id |-> Anti[what.k].id, ok |-> Lap(a) = p]
Emit == PrintT("@@" \o ToJson(Record @@ [kind |-> what.kind]))

\* ---- laws of the specification
Laws ==
  /\ what.kind = "calc" => /\ DX(DY(P)) = DY(DX(P))
                           /\ \A i \in 1..1 : Eval(PMul(P, X), I(1), I(2)) = Eval(P, I(1), I(2))
                           /\ DX(PMul(X, P)) = PAdd(P, PMul(X, DX(P)))
  /\ (what.kind = "bary" /\ ~Flat) =>
       /\ PAdd(Coords[1], PAdd(Coords[2], Coords[3])) = PConst(QOne)
       /\ \A i \in 1..3, j \in 1..3 :
            Eval(Coords[i], I(T(j)[1]), I(T(j)[2])) = (IF i = j THEN QOne ELSE QZero)
  /\ what.kind = "leg" =>
       /\ Eval(Leg(what.k), QOne, QZero) = QOne
       /\ Eval(Leg(what.k), I(-1), QZero) = (IF what.k % 2 = 0 THEN QOne ELSE I(-1))
       /\ \A m \in 0..3 : m < what.k => Int1(PMul(Leg(what.k), Leg(m))) = QZero
=============================================================================
