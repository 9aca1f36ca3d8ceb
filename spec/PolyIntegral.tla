---------------------------- MODULE PolyIntegral ----------------------------
(* C12: integrals of polynomials over cells, and over the two halves of a    *)
(* cell that is cut along a curve.                                           *)
EXTENDS CellInt, Json

CONSTANTS Shapes, Monos, Listings, Cuts

VARIABLE what
vars == <<what>>
Init == what \in {[kind |-> "mono", s |-> s, m |-> m] : s \in 1..Len(Shapes), m \in 1..Len(Monos)}
            \cup {[kind |-> "cut", s |-> s, m |-> m] : s \in 1..Len(Cuts), m \in 1..Len(Monos)}
            \cup {[kind |-> "listing", s |-> s, l |-> l] : s \in 1..Len(Shapes), l \in Listings}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

M == Monos[what.m]
S == IF what.kind = "cut" THEN Cuts[what.s] ELSE Shapes[what.s]
Emit == PrintT("@@" \o ToJson(
  IF what.kind = "listing" THEN [kind |-> "listing", id |-> S.id, l |-> what.l]
  ELSE [kind |-> what.kind, id |-> S.id, a |-> M[1], b |-> M[2], v |-> CellIntegral(S.cell, M[1], M[2])]))

\* ---- both forms of Green's theorem agree; squares are positive; a hole
\* ---- that is filled adds its integral
Laws == what.kind \in {"mono", "cut"} =>
  /\ \A k \in 1..Len(S.cell) : S.cell[k].kind = "poly" =>
       PolygonInt(S.cell[k].v, M[1], M[2]) = PolygonIntDx(S.cell[k].v, M[1], M[2])
  /\ (Len(S.cell) > 1) =>
       CellIntegral(S.cell, M[1], M[2]) =
         VSub(CellIntegral(SubSeq(S.cell, 1, Len(S.cell) - 1), M[1], M[2]),
              CellIntegral(<<S.cell[Len(S.cell)]>>, M[1], M[2]))
=============================================================================
