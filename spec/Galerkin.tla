----------------------------- MODULE Galerkin -----------------------------
(* C21: polynomials on the domain of a mesh.  The global space of degree p   *)
(* contains every polynomial of degree p, whose energy and mass under the    *)
(* assembled matrices are therefore exact integrals over the domain; and a   *)
(* polynomial that vanishes on the boundary is the discrete solution for its *)
(* own right-hand side.                                                      *)
EXTENDS CellInt, Poly, Json

CONSTANTS Domains,   \* sequence of [id, deg, pieces]; a piece: contours as in CellInt, or
                     \* [kind |-> "ell", c, rx, ry], [kind |-> "half", r] (upper half disc)
          Problems,  \* sequence of [id, dom, u: list of terms, D, R, pts]
          MaxDeg     \* highest degree of the pairs on any domain

\* ---- more contours ----
EllInt(k, a, b) ==
  LET ps == Pairs(a, b)
      term(ij) == LET i == ij[1] j == ij[2] IN
        QMul(QMul(QInt(Binom(a, i) * Binom(b, j)), QMul(QPow(k.c[1], a - i), QPow(k.c[2], b - j))),
             QMul(QMul(QPow(k.rx, i + 1), QPow(k.ry, j + 1)), Disc0(QOne, i, j)))
  IN QSumSeq([m \in 1..Len(ps) |-> term(ps[m])])
HalfInt(k, a, b) ==
  IF a % 2 = 1 THEN VZero ELSE
  LET w == QMul(QPow(k.r, a + b + 2), Q(DFact(a - 1) * DFact(b - 1), (a + b + 2) * DFact(a + b)))
  IN IF b % 2 = 1 THEN <<QMul(QInt(2), w), QZero>> ELSE <<QZero, w>>
Contour(k, a, b) == CASE k.kind = "ell" -> <<QZero, EllInt(k, a, b)>>
                      [] k.kind = "half" -> HalfInt(k, a, b)
                      [] OTHER -> ContourInt(k, a, b)
PieceInt(p, a, b) == VSub(Contour(p[1], a, b), VSum([k \in 1..(Len(p) - 1) |-> Contour(p[k + 1], a, b)]))
DomInt(d, a, b) == VSum([k \in 1..Len(d.pieces) |-> PieceInt(d.pieces[k], a, b)])
RECURSIVE PInt(_, _)
PInt(d, s) == IF s = <<>> THEN VZero
              ELSE VAdd(VScale(Head(s)[1], DomInt(d, Head(s)[2], Head(s)[3])), PInt(d, Tail(s)))
IntOf(d, p) == PInt(d, Terms(p))
Energy(d, p, q) == IntOf(d, PAdd(PMul(DX(p), DX(q)), PMul(DY(p), DY(q))))
MassOf(d, p, q) == IntOf(d, PMul(p, q))

VARIABLE what
MI == {m \in (0..MaxDeg) \X (0..MaxDeg) : m[1] + m[2] <= MaxDeg}
MIof(d) == {m \in MI : m[1] + m[2] <= Domains[d].deg}
\* two levels, so that the workers share the domains
Init == what \in {[kind |-> "dom", d |-> d] : d \in 1..Len(Domains)} \cup {[kind |-> "probs"]}
Next == \/ /\ what.kind = "dom"
           /\ \E u, v \in MIof(what.d) : /\ Idx(u[1], u[2]) <= Idx(v[1], v[2])
                                        /\ what' = [kind |-> "pair", d |-> what.d, u |-> u, v |-> v]
        \/ what.kind = "probs" /\ \E p \in 1..Len(Problems) : what' = [kind |-> "solve", p |-> p]
Spec == Init /\ [][Next]_what

U == Term(QOne, what.u[1], what.u[2])
V == Term(QOne, what.v[1], what.v[2])
Dom == Domains[what.d]
P == Problems[what.p]
PU == PList(P.u)
Load == PAdd(PScale(QInt(-P.D), Lap(PU)), PScale(QInt(P.R), PU))
PDom == LET k == CHOOSE k \in 1..Len(Domains) : Domains[k].id = P.dom IN Domains[k]

\* the solution vanishes at enough points of the boundary to vanish on it,
\* and its energy is the work of the load (Green's identity)
Vanishes == what.kind = "solve" => \A k \in 1..Len(P.pts) : Eval(PU, P.pts[k][1], P.pts[k][2]) = QZero
Work == what.kind = "solve" =>
  VAdd(VScale(QInt(P.D), Energy(PDom, PU, PU)), VScale(QInt(P.R), MassOf(PDom, PU, PU))) = IntOf(PDom, PMul(Load, PU))
\* constants have no energy
Constant == what.kind = "pair" => (what.u = <<0, 0>> => Energy(Dom, U, V) = VZero)
Emit == what.kind \in {"pair", "solve"} => PrintT("@@" \o ToJson(
  IF what.kind = "pair" THEN [kind |-> "pair", dom |-> Dom.id, u |-> what.u, v |-> what.v, h1 |-> Energy(Dom, U, V), l2 |-> MassOf(Dom, U, V)]
  ELSE [kind |-> "solve", id |-> P.id, dom |-> P.dom, D |-> P.D, R |-> P.R, u |-> Terms(PU), f |-> Terms(Load), deg |-> Deg(PU),
        h1 |-> Energy(PDom, PU, PU), l2 |-> MassOf(PDom, PU, PU)]))
=============================================================================
