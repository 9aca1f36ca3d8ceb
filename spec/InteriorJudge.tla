--------------------------- MODULE InteriorJudge ---------------------------
(* Judges recorded points (trace.json): representative points of contours    *)
(* and triangles of the drawing triangulation, given in thousandths.         *)
EXTENDS InteriorPts
Traces == JsonDeserialize("trace.json")
VARIABLE at
CellOf(id) == LET k == CHOOSE i \in 1..Len(Cells) : Cells[i].id = id IN Cells[k].cell
P(z) == <<Q(z[1], 1000), Q(z[2], 1000)>>
JInit == at \in 1..Len(Traces) /\ kase = 0
JNext == UNCHANGED <<at, kase>>
JSpec == JInit /\ [][JNext]_<<at, kase>>
\* a representative point lies strictly inside its own contour: contour given
\* by what it encloses
Rep(t) == {i \in 1..Len(t.points) : ~Inside(CellOf(t.id)[t.contour[i]], P(t.points[i]))}
\* a triangle that shows through has its centre, and the middles of its
\* sides, in the cell or within a tenth of its boundary
Off(c, z) == ~InCell(c, P(z)) /\ Farther(c, P(z), <<1, 10>>)
Tri(t) == {i \in 1..Len(t.centres) : Off(CellOf(t.id), t.centres[i])}
          \cup {i \in 1..Len(t.sides) : Off(CellOf(t.id), t.sides[i])}
Verdict == LET t == Traces[at] IN
  PrintT("@@" \o ToJson([id |-> t.id, rep |-> Rep(t), tri |-> Tri(t)]))
=============================================================================
