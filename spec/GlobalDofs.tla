---------------------------- MODULE GlobalDofs ----------------------------
(* C18, C19: the functions of a finite element space on a mesh, from the     *)
(* incidences of the mesh and the degree: which functions every cell has,    *)
(* where they live, which cells share them, which are held at the boundary.  *)
(* Behaviours: the edges are listed in some order and direction, then local  *)
(* spaces are built for cells in any order, some of them repeatedly.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Meshes, Degs, MaxOps, Orders
VARIABLES m, deg, listing, visits, ops
vars == <<m, deg, listing, visits, ops>>

D == INSTANCE EdgeDim WITH Prime <- 10007, MaxDeg <- 4, Count <- 1,
                           curve <- "line", loop <- FALSE

Mesh == Meshes[m]
N == Len(Mesh.edges)
\* the edges in order o of Orders: <<step, offset, flipped>>
List(k, o) == [i \in 1..Len(Meshes[k].edges) |->
   LET n == Len(Meshes[k].edges)
       e == IF o[1] = 0 THEN i ELSE n + 1 - i
       f == ((e + o[2] - 1) % n) + 1
   IN <<f, Meshes[k].edges[f].flips /\ (o[3] = 1 \/ (o[3] = 2 /\ f % 2 = 0))>>]

Cells(k) == {c \in {Meshes[k].edges[i].pos : i \in 1..Len(Meshes[k].edges)}
                   \cup {Meshes[k].edges[i].neg : i \in 1..Len(Meshes[k].edges)} : c >= 0}

Init == /\ m \in 1..Len(Meshes) /\ deg \in Degs /\ deg <= Meshes[m].top
        /\ listing \in {List(m, o) : o \in Orders}
        /\ visits = <<>> /\ ops = 0
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Step == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<m, deg, listing>>
Visit == Step /\ \E c \in Cells(m) : visits' = Append(visits, c)
\* all cells, as an assembly does, or backwards
Sweep == Step /\ \E b \in BOOLEAN : LET s == Sorted(Cells(m)) IN
                  visits' = visits \o (IF b THEN Reverse(s) ELSE s)
Next == Visit \/ Sweep
Spec == Init /\ [][Next]_vars

\* ---- the functions ----
Place(i) == CHOOSE k \in 1..N : listing[k][1] = i    \* place of edge i in the list
EdgeFuns(i) == D!Dim(Mesh.edges[i].curve, deg) - (IF Mesh.edges[i].loop THEN 0 ELSE 2)
EdgesOf(c) == {i \in 1..N : c \in {Mesh.edges[i].pos, Mesh.edges[i].neg}}
VertsOf(S) == UNION {IF Mesh.edges[i].loop THEN {} ELSE {Mesh.num[Mesh.edges[i].a], Mesh.num[Mesh.edges[i].b]} : i \in S}
Verts == VertsOf(1..N)
Bubbles == (deg * (deg - 1)) \div 2
OnBoundary(i) == Mesh.edges[i].pos < 0 \/ Mesh.edges[i].neg < 0
VertOnBoundary(v) == \E i \in 1..N : OnBoundary(i) /\ ~Mesh.edges[i].loop
   /\ v \in {Mesh.num[Mesh.edges[i].a], Mesh.num[Mesh.edges[i].b]}
\* edges of cell c that meet vertex v: where its function need not vanish
Star(c, v) == {i \in EdgesOf(c) : v \in VertsOf({i})}

RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
NumEdge == Sum(1..N, [i \in 1..N |-> EdgeFuns(i)])
NumBubb == Cardinality(Cells(m)) * Bubbles
Total == NumBubb + Cardinality(Verts) + NumEdge

Funs(c) == [cell |-> c, bubb |-> Bubbles,
            verts |-> {[v |-> v, star |-> {Place(i) : i \in Star(c, v)}, bdry |-> VertOnBoundary(v)] : v \in VertsOf(EdgesOf(c))},
            edges |-> {[e |-> Place(i), n |-> EdgeFuns(i), bdry |-> OnBoundary(i),
                        straight |-> Mesh.edges[i].curve = "line"] : i \in EdgesOf(c)}]

\* ---- what must hold of the model itself ----
\* counting cell by cell and taking shared functions once gives the total
Shared == LET All == UNION {{<<"v", x.v, 0>> : x \in Funs(c).verts}
                            \cup UNION {{<<"e", x.e, k>> : k \in 1..x.n} : x \in Funs(c).edges}
                            \cup {<<"b", c, k>> : k \in 1..Bubbles} : c \in Cells(m)}
          IN Cardinality(All) = Total
\* a function is shared by at most two cells unless it is a vertex function
TwoCells == \A i \in 1..N : Cardinality({c \in Cells(m) : i \in EdgesOf(c)}) \in {1, 2}
Listed == {listing[k][1] : k \in 1..N} = 1..N
OK == Shared /\ TwoCells /\ Listed

Emit == (visits # <<>>) => PrintT("@@" \o ToJson(
  [mesh |-> Mesh.id, deg |-> deg, listing |-> listing, visits |-> visits,
   allcells |-> Cells(m), total |-> Total, nvert |-> Cardinality(Verts), nedge |-> NumEdge, nbubb |-> NumBubb,
   cells |-> {Funs(c) : c \in {visits[k] : k \in 1..Len(visits)}}]))
=============================================================================
