---------------------------- MODULE BoundaryIndex ----------------------------
(* C05: one common index for everything sampled on the boundary of a cell,   *)
(* and boundary integrals.  A cell is a sequence of contours, a contour a    *)
(* sequence of edges, an edge sampled with parameter n has 2n points without *)
(* its endpoint.                                                             *)
EXTENDS CellInt, Json, FiniteSets

CONSTANTS Shapes, Depth, Params, Degree
\* Shapes: [id, ne, cell]; Params: admissible <<n_trap, n_kress>>; cell: exact
\* contours (empty sequence for shapes without exact integrals)

VARIABLES sh, layout, hist
vars == <<sh, layout, hist>>

\* ---- generation: a listing of the edges and a history of samplings ----
Init == /\ \E i \in 1..Len(Shapes) : sh = Shapes[i]
        /\ layout = [turn |-> 0, flip |-> FALSE, sides |-> <<>>, qt |-> <<>>]
        /\ hist = <<>>
Arrange == /\ layout.sides = <<>>
           /\ \E turn \in 0..(sh.ne - 1), flip \in BOOLEAN :
              \E s \in {"all", "none", "odd", "third"} : \E qq \in {"kress", "mixed", "own"} :
                layout' = [turn |-> turn, flip |-> flip, qt |-> qq,
                  sides |-> [k \in 1..sh.ne |-> CASE s = "all" -> 1 [] s = "none" -> -1
                     [] s = "odd" -> (IF k % 2 = 1 THEN 1 ELSE -1)
                     [] OTHER -> (IF k % 3 = 0 THEN 1 ELSE -1)]]
           /\ UNCHANGED <<sh, hist>>
Sample == /\ layout.sides # <<>> /\ Len(hist) < Depth
          /\ \E p \in Params : hist' = Append(hist, [op |-> "sample", n |-> p])
          /\ UNCHANGED <<sh, layout>>
Clear == /\ layout.sides # <<>> /\ Len(hist) < Depth /\ Len(hist) > 0
         /\ hist[Len(hist)].op = "sample"
         /\ hist' = Append(hist, [op |-> "clear"]) /\ UNCHANGED <<sh, layout>>
Next == Arrange \/ Sample \/ Clear
Spec == Init /\ [][Next]_vars
Emit == (hist # <<>>) => PrintT("@@" \o ToJson([shape |-> sh.id, layout |-> layout, hist |-> hist]))

\* ---- what the index must be, for contours of edge parameters ns ----
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Upto(s, k) == SubSeq(s, 1, k)
ContourLen(ns) == 2 * Sum(ns)
VertIdx(ns) == [k \in 1..(Len(ns) + 1) |-> 2 * Sum(Upto(ns, k - 1))]
Lens(cs) == [k \in 1..Len(cs) |-> ContourLen(cs[k])]
Starts(cs) == [k \in 1..(Len(cs) + 1) |-> Sum(Upto(Lens(cs), k - 1))]
Total(cs) == Sum(Lens(cs))
\* position of local index i (from 0) of a contour: <<edge, sample>>
Locate(ns, i) == LET e == CHOOSE k \in 1..Len(ns) : 2 * Sum(Upto(ns, k - 1)) <= i
                                                     /\ i < 2 * Sum(Upto(ns, k))
                 IN <<e, i - 2 * Sum(Upto(ns, e - 1))>>
\* local index of the nearest vertex in parameter; halfway either will do
Closest(ns, i) == LET p == Locate(ns, i)
                      a == VertIdx(ns)[p[1]]
                      b == VertIdx(ns)[p[1] + 1] % ContourLen(ns)
                  IN IF p[2] < ns[p[1]] THEN {a} ELSE IF p[2] > ns[p[1]] THEN {b} ELSE {a, b}
\* whole boundary: sequence of <<contour, local index>>
Global(cs) == LET st == Starts(cs) IN
  [k \in 1..Total(cs) |->
     LET c == CHOOSE m \in 1..Len(cs) : st[m] < k /\ k <= st[m + 1] IN <<c, k - 1 - st[c]>>]

\* ---- judging what a cell reported ----
\* o: [cs, num_pts, start, vert, len, closest, clc, cand]; cand[k] = the
\* <<contour, edge, sample>> whose point coincides with boundary point k
Faults(o) ==
  LET cs == o.cs Gl == Global(cs) IN
  (IF o.num_pts = Total(cs) THEN {} ELSE {"number of boundary points"}) \cup
  (IF o.start = Starts(cs) THEN {} ELSE {"contour start indices"}) \cup
  (IF o.vert = [k \in 1..Len(cs) |-> VertIdx(cs[k])] THEN {} ELSE {"vertex indices"}) \cup
  (IF o.len = Lens(cs) THEN {} ELSE {"contour sizes"}) \cup
  (IF Len(o.closest) = Total(cs) /\ Len(o.cand) = Total(cs)
   THEN (IF \A k \in 1..Total(cs) : o.closest[k] - Starts(cs)[Gl[k][1]] \in Closest(cs[Gl[k][1]], Gl[k][2])
         THEN {} ELSE {"closest vertex indices"}) \cup
        (IF \A k \in 1..Total(cs) :
              LET p == Locate(cs[Gl[k][1]], Gl[k][2]) IN
              \E m \in 1..Len(o.cand[k]) : o.cand[k][m] = <<Gl[k][1], p[1], p[2]>>
         THEN {} ELSE {"order of boundary points"})
   ELSE {"length of boundary arrays"})

\* properties of the index itself
IndexOK == \A ns \in {<<4>>, <<4, 5>>, <<5, 4, 6>>} :
  /\ VertIdx(ns)[1] = 0 /\ VertIdx(ns)[Len(ns) + 1] = ContourLen(ns)
  /\ \A i \in 0..(ContourLen(ns) - 1) :
       /\ Locate(ns, i)[2] < 2 * ns[Locate(ns, i)[1]]
       /\ VertIdx(ns)[Locate(ns, i)[1]] + Locate(ns, i)[2] = i
       /\ \A v \in Closest(ns, i) : v \in {VertIdx(ns)[k] : k \in 1..Len(ns)}
  /\ \A k \in 1..Len(ns) : Closest(ns, VertIdx(ns)[k]) = {VertIdx(ns)[k]}

\* ---- exact integrals of monomials over the exact shapes ----
Monos == {<<a, b>> \in (0..Degree) \X (0..Degree) : a + b <= Degree}
Integrals(s) == {[a |-> m[1], b |-> m[2], area |-> CellIntegral(s.cell, m[1], m[2]),
   arc |-> [k \in 1..Len(s.cell) |-> ArcParts(s.cell[k], m[1], m[2])]] : m \in Monos}
GreenAgrees == \A i \in 1..Len(Shapes) : \A k \in 1..Len(Shapes[i].cell) :
  Shapes[i].cell[k].kind = "poly" =>
    \A m \in Monos : PolygonInt(Shapes[i].cell[k].v, m[1], m[2])
                      = PolygonIntDx(Shapes[i].cell[k].v, m[1], m[2])
EmitIntegrals == \A i \in 1..Len(Shapes) : Shapes[i].cell # <<>> =>
  PrintT("@@" \o ToJson([integrals |-> Integrals(Shapes[i]), shape |-> Shapes[i].id]))
=============================================================================
