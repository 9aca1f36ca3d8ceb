----------------------------- MODULE Subdivision -----------------------------
(* C08: what it means that a mesh is a subdivision of a rectangle, judged on *)
(* the edges, cells and probe points recorded from a library mesh, and the   *)
(* pegboard as specified.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Source   \* "trace": judge trace.json; "model": judge the model below
CONSTANT Sizes, Holes

\* a mesh t: [edges, cells, ext, w, h, scale, tol, probes, holes, peg]
\* edge: [p, q, ai, bi, pos, neg, loop, a2]; p, q integer points, ai and bi the
\* numbers of its vertices, a2 the area between chord and curve (a loop: inside
\* it), doubled and times scale, positive to the right of p -> q; pos is on the
\* left of p -> q, neg on its right; negative means none

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* ---- the specified pegboard: nx by ny unit squares (side 2), with holes ----
\* 2 pi r^2 * 4 * 1000 for the radius r is given as `a2`
PegEdges(nx, ny, hole) ==
  LET cell(i, j) == IF i < 0 \/ j < 0 \/ i >= nx \/ j >= ny THEN -1 ELSE j * nx + i
      disc(i, j) == nx * ny + cell(i, j)
      num(x, y) == y * (nx + 1) + x
      hor == {[p |-> <<2 * i, 2 * j>>, q |-> <<2 * i + 2, 2 * j>>, ai |-> num(i, j), bi |-> num(i + 1, j),
               pos |-> cell(i, j), neg |-> cell(i, j - 1), loop |-> FALSE, a2 |-> 0] : i \in 0..(nx - 1), j \in 0..ny}
      ver == {[p |-> <<2 * i, 2 * j>>, q |-> <<2 * i, 2 * j + 2>>, ai |-> num(i, j), bi |-> num(i, j + 1),
               pos |-> cell(i - 1, j), neg |-> cell(i, j), loop |-> FALSE, a2 |-> 0] : i \in 0..nx, j \in 0..(ny - 1)}
      cir == IF hole = 0 THEN {} ELSE
             {[p |-> <<2 * i + 1, 2 * j + 1>>, q |-> <<2 * i + 1, 2 * j + 1>>, ai |-> -1, bi |-> -1,
               pos |-> disc(i, j), neg |-> cell(i, j), loop |-> TRUE, a2 |-> hole] : i \in 0..(nx - 1), j \in 0..(ny - 1)}
  IN hor \cup ver \cup cir
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Pegboard(nx, ny, hole) ==
  [id |-> "model", edges |-> SeqOf(PegEdges(nx, ny, hole)), w |-> 2 * nx, h |-> 2 * ny, scale |-> 1000,
   tol |-> 0, probes |-> <<>>, cells |-> [k \in 1..(nx * ny * (IF hole = 0 THEN 1 ELSE 2)) |-> k - 1],
   holes |-> [k \in 1..(nx * ny * (IF hole = 0 THEN 1 ELSE 2)) |-> IF k <= nx * ny /\ hole # 0 THEN 1 ELSE 0],
   peg |-> <<nx, ny, hole>>]

\* ---- sides, contours, areas ----
\* the sides of cell c: <<edge number, direction>>
Sides(t, c) == {<<k, 1>> : k \in {k \in 1..Len(t.edges) : t.edges[k].pos = c}}
          \cup {<<k, -1>> : k \in {k \in 1..Len(t.edges) : t.edges[k].neg = c}}
From(t, s) == IF s[2] = 1 THEN t.edges[s[1]].p ELSE t.edges[s[1]].q
To(t, s) == IF s[2] = 1 THEN t.edges[s[1]].q ELSE t.edges[s[1]].p
Next1(t, S, s) == IF t.edges[s[1]].loop THEN {s}
                  ELSE {r \in S : ~t.edges[r[1]].loop /\ From(t, r) = To(t, s)}
Prev1(t, S, s) == IF t.edges[s[1]].loop THEN {s}
                  ELSE {r \in S : ~t.edges[r[1]].loop /\ To(t, r) = From(t, s)}
Closed(t, S) == \A s \in S : Cardinality(Next1(t, S, s)) = 1 /\ Cardinality(Prev1(t, S, s)) = 1
RECURSIVE Orbit(_, _, _)
Orbit(t, S, seen) == LET more == UNION {Next1(t, S, s) : s \in seen} IN
                     IF more \subseteq seen THEN seen ELSE Orbit(t, S, seen \cup more)
Contours(t, S) == {Orbit(t, S, {s}) : s \in S}
Area2(t, s) == LET e == t.edges[s[1]] IN \* doubled, times scale
  s[2] * (t.scale * (e.p[1] * e.q[2] - e.p[2] * e.q[1]) + e.a2)
Areas(t, S) == SumOver([s \in S |-> Area2(t, s)], S)
IAbs(x) == IF x < 0 THEN -x ELSE x

\* ---- the graph ----
Points(t) == {t.edges[k].p : k \in 1..Len(t.edges)} \cup {t.edges[k].q : k \in 1..Len(t.edges)}
RECURSIVE Reach(_, _)
Reach(t, P) == LET more == {x \in Points(t) : \E k \in 1..Len(t.edges) :
                     \/ t.edges[k].p = x /\ t.edges[k].q \in P
                     \/ t.edges[k].q = x /\ t.edges[k].p \in P} IN
               IF more \subseteq P THEN P ELSE Reach(t, P \cup more)
Parts(t) == {Reach(t, {x}) : x \in Points(t)}
RECURSIVE CellReach(_, _)
CellReach(t, C) == LET more == {c \in Range(t.cells) : \E k \in 1..Len(t.edges) :
                      {t.edges[k].pos, t.edges[k].neg} \cap C # {} /\ c \in {t.edges[k].pos, t.edges[k].neg}} IN
                   IF more \subseteq C THEN C ELSE CellReach(t, C \cup more)

Rim(t) == {k \in 1..Len(t.edges) : t.edges[k].pos < 0 \/ t.edges[k].neg < 0}
OnFrame(t, x) == x[1] \in {0, t.w} \/ x[2] \in {0, t.h}
SameFrameSide(t, x, y) == (x[1] = y[1] /\ x[1] \in {0, t.w}) \/ (x[2] = y[2] /\ x[2] \in {0, t.h})
Exterior(t) == {<<k, 1>> : k \in {k \in 1..Len(t.edges) : t.edges[k].pos < 0}}
          \cup {<<k, -1>> : k \in {k \in 1..Len(t.edges) : t.edges[k].neg < 0}}

\* the cells as sets of directed segments, whatever they are called
Shape(t, c) == {<<From(t, s), To(t, s), IF t.edges[s[1]].loop THEN s[2] ELSE 0>> : s \in Sides(t, c)}

CellFaults(t, i) ==
  LET c == t.cells[i]  S == Sides(t, c) IN
  IF S = {} THEN {"a cell without edges"}
  ELSE IF ~Closed(t, S) THEN {"the boundary of a cell is not closed"}
  ELSE LET K == Contours(t, S)
           pos == {w \in K : Areas(t, w) > 0} IN
       (IF Cardinality(pos) = 1 THEN {} ELSE {"a cell has not exactly one outer contour"})
       \cup (IF Areas(t, S) > 0 THEN {} ELSE {"a cell has no area"})
       \cup (IF Cardinality(K) - 1 = t.holes[i] THEN {} ELSE {"number of holes"})

Faults(t) ==
  LET cells == Range(t.cells)
      sides == UNION {Sides(t, c) : c \in cells} IN
  UNION {CellFaults(t, i) : i \in 1..Len(t.cells)}
  \cup (IF Cardinality(cells) = Len(t.cells) THEN {} ELSE {"a cell is listed twice"})
  \cup (IF \A k \in 1..Len(t.edges) : t.edges[k].pos # t.edges[k].neg THEN {} ELSE {"an edge has one cell on both sides"})
  \cup (IF \A k \in 1..Len(t.edges) : {t.edges[k].pos, t.edges[k].neg} \subseteq (cells \cup {-1})
        THEN {} ELSE {"an edge beside an unlisted cell"})
  \cup (IF \A k, m \in 1..Len(t.edges) : k # m => {t.edges[k].p, t.edges[k].q} # {t.edges[m].p, t.edges[m].q}
           \/ (t.edges[k].a2 # t.edges[m].a2 \/ t.edges[k].loop # t.edges[m].loop)
        THEN {} ELSE {"an edge twice"})
  \cup (IF \A k \in Rim(t) : ~t.edges[k].loop /\ SameFrameSide(t, t.edges[k].p, t.edges[k].q) /\ t.edges[k].a2 = 0
        THEN {} ELSE {"a boundary edge inside the domain"})
  \cup (IF \A k \in 1..Len(t.edges) : t.edges[k].loop \/ ~SameFrameSide(t, t.edges[k].p, t.edges[k].q) \/ k \in Rim(t)
        THEN {} ELSE {"an edge on the frame with cells on both sides"})
  \cup (IF Exterior(t) # {} /\ Closed(t, Exterior(t)) THEN {} ELSE {"the mesh boundary is not closed"})
  \cup (IF Areas(t, Exterior(t)) = -2 * t.scale * t.w * t.h THEN {} ELSE {"area enclosed by the mesh boundary"})
  \cup (IF IAbs(Areas(t, sides) - 2 * t.scale * t.w * t.h) <= t.tol THEN {} ELSE {"the areas do not add up to the domain"})
  \cup (IF Cardinality(Points(t)) - Len(t.edges) + Len(t.cells) + 1 = 1 + Cardinality(Parts(t)) THEN {} ELSE {"Euler's relation"})
  \cup (IF CellReach(t, {t.cells[1]}) = cells THEN {} ELSE {"the cells are not connected"})
  \cup (IF \A k, m \in 1..Len(t.edges) : (~t.edges[k].loop /\ ~t.edges[m].loop) =>
            /\ (t.edges[k].ai = t.edges[m].ai) <=> (t.edges[k].p = t.edges[m].p)
            /\ (t.edges[k].ai = t.edges[m].bi) <=> (t.edges[k].p = t.edges[m].q)
            /\ (t.edges[k].bi = t.edges[m].bi) <=> (t.edges[k].q = t.edges[m].q)
        THEN {} ELSE {"vertex numbers do not name points"})
  \cup (IF \A n \in 1..Len(t.probes) : t.probes[n].near
           \/ Cardinality(Range(t.probes[n].cells)) = (IF t.probes[n].inside THEN 1 ELSE 0)
        THEN {} ELSE {"a point of the domain is not in exactly one cell"})
  \cup (IF t.peg = <<>> THEN {}
        ELSE LET m == Pegboard(t.peg[1], t.peg[2], t.peg[3]) IN
             (IF {Shape(t, c) : c \in cells} = {Shape(m, c) : c \in Range(m.cells)} THEN {} ELSE {"not the specified pegboard"})
             \cup (IF \A k \in 1..Len(t.edges) : t.edges[k].loop =>
                      IAbs(t.edges[k].a2) - IAbs(t.peg[3]) \in -1..1 THEN {} ELSE {"size of a hole"}))

Meshes == IF Source = "trace" THEN JsonDeserialize("trace.json")
          ELSE LET S == {Pegboard(s[1], s[2], h) : s \in Sizes, h \in Holes} IN SeqOf(S)
VARIABLE at
Init == at \in 1..Len(Meshes)
Next == UNCHANGED at
Spec == Init /\ [][Next]_at
Verdict == PrintT("@@" \o ToJson([id |-> Meshes[at].id, faults |-> Faults(Meshes[at])]))
ModelValid == Source = "model" => Faults(Meshes[at]) = {}
=============================================================================
