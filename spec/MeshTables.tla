----------------------------- MODULE MeshTables -----------------------------
(* C07: the tables and queries of a planar mesh, from the list of edges it   *)
(* was given.  Vertices are names; only some are numbered, with gaps.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS VertIdx, CellIdx, MaxEdges, Exhaustive
\* VertIdx: number of each vertex (negative: unnumbered); CellIdx: the cell
\* indices edges may refer to (negative: none)

VARIABLES given, fault
vars == <<given, fault>>
V == 1..Len(VertIdx)

\* an entry of the given list: a new edge, or `same`: an earlier entry again
New(a, b, p, n) == [a |-> a, b |-> b, pos |-> p, neg |-> n, same |-> 0]
Init == given = <<>> /\ fault = "none"
Give == /\ Len(given) < MaxEdges /\ fault = "none"
        /\ \E a \in V, b \in V, p \in CellIdx, n \in CellIdx :
             /\ p >= 0 \/ n >= 0
             /\ given' = Append(given, New(a, b, p, n))
        /\ UNCHANGED fault
\* close a contour: continue from the last edge on the same cell's boundary
Continue == /\ given # <<>> /\ Len(given) < MaxEdges /\ fault = "none" /\ ~Exhaustive
            /\ LET l == given[Len(given)] IN l.same = 0 /\ l.a # l.b
                 /\ \E b \in V, o \in CellIdx :
                     /\ b # l.b
                     /\ l.pos >= 0 => given' = Append(given, New(l.b, b, l.pos, o))
                     /\ l.pos < 0 => given' = Append(given, New(b, l.a, o, l.neg))
            /\ UNCHANGED fault
Close == /\ Len(given) >= 2 /\ Len(given) < MaxEdges /\ fault = "none" /\ ~Exhaustive
         /\ \E k \in 1..(Len(given) - 1), o \in CellIdx :
              LET f == given[k] l == given[Len(given)] IN
              /\ f.same = 0 /\ l.same = 0 /\ l.b # f.a /\ l.pos = f.pos /\ f.pos >= 0
              /\ \E flip \in BOOLEAN : given' = Append(given,
                   IF flip THEN New(f.a, l.b, o, f.pos) ELSE New(l.b, f.a, f.pos, o))
         /\ UNCHANGED fault
Again == /\ given # <<>> /\ Len(given) < MaxEdges /\ fault = "none"
         /\ \E k \in 1..Len(given) : given[k].same = 0 /\ given' = Append(given, [given[k] EXCEPT !.same = k])
         /\ UNCHANGED fault
\* an edge beside no cell, or something that is no edge
Spoil == /\ given # <<>> /\ fault = "none"
         /\ fault' \in {"nocell", "noedge"} /\ UNCHANGED given
Next == Give \/ Continue \/ Close \/ Again \/ Spoil
Spec == Init /\ [][Next]_vars

\* ---- the tables ----
Edges == SelectSeq(given, LAMBDA e : e.same = 0)
E == 1..Len(Edges)
Loop(e) == e.a = e.b
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                       IN <<m>> \o SortSet(S \ {m})
Verts == SortSet({VertIdx[v] : v \in {v \in V : /\ VertIdx[v] >= 0
   /\ \E k \in E : ~Loop(Edges[k]) /\ v \in {Edges[k].a, Edges[k].b}}})
Cells == SortSet({c \in CellIdx : c >= 0 /\ \E k \in E : c \in {Edges[k].pos, Edges[k].neg}})
EdgesOf(c) == {k \in E : c \in {Edges[k].pos, Edges[k].neg}}
OnBoundary(k) == Edges[k].pos < 0 \/ Edges[k].neg < 0
VertOnBoundary(v) == \E k \in E : OnBoundary(k) /\
   v \in {VertIdx[Edges[k].a], VertIdx[Edges[k].b]}
\* the cell's boundary is a union of closed contours
Beg(k, c) == IF Edges[k].pos = c THEN Edges[k].a ELSE Edges[k].b
Fin(k, c) == IF Edges[k].pos = c THEN Edges[k].b ELSE Edges[k].a
Closed(c) == LET S == {k \in EdgesOf(c) : ~Loop(Edges[k])} IN
  /\ \A k \in S : Cardinality({m \in S : Beg(m, c) = Fin(k, c)}) = 1
  /\ \A k \in S : Cardinality({m \in S : Fin(m, c) = Beg(k, c)}) = 1

\* ---- properties of the tables ----
TablesOK ==
  /\ \A i \in 1..(Len(Verts) - 1) : Verts[i] < Verts[i + 1]
  /\ \A i \in 1..(Len(Cells) - 1) : Cells[i] < Cells[i + 1]
  /\ \A k \in E : \E c \in 1..Len(Cells) : k \in EdgesOf(Cells[c])
  /\ \A k \in E : OnBoundary(k) <=> Cardinality({c \in CellIdx : c >= 0 /\ k \in EdgesOf(c)})
                                    = (IF Edges[k].pos = Edges[k].neg THEN 0 ELSE 1)
Emit == given # <<>> => PrintT("@@" \o ToJson([given |-> given, fault |-> fault,
   verts |-> Verts, cells |-> Cells, num |-> Len(Edges),
   edges |-> [c \in 1..Len(Cells) |-> EdgesOf(Cells[c])],
   closed |-> [c \in 1..Len(Cells) |-> Closed(Cells[c])],
   eb |-> [k \in E |-> OnBoundary(k)],
   vb |-> [i \in 1..Len(Verts) |-> VertOnBoundary(Verts[i])]]))
=============================================================================
