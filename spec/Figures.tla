----------------------------- MODULE Figures -----------------------------
(* C23: what drawing a mesh, a local function or a global function shows.    *)
(*                                                                           *)
(* The options of a draw come from a row of an orthogonal array: every two   *)
(* options take all nine combinations of their three values in 27 rows.  The *)
(* value 0 of an option means that it is not given.  The plots are objects:  *)
(* their edges, function or coefficients may be set between draws, cells are *)
(* sampled again (which turns the edges they share with others), the system  *)
(* is solved.  A draw never changes the data.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NCells, NEdges,
          CellEdges,      \* edges of each cell
          MaxOps, Kinds

VARIABLES hist, m, l, g, solved, figs
vars == <<hist, m, l, g, solved, figs>>

Row == 0..26
\* the 13 directions of the plane over the field with three elements
Dirs == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 2, 0>>, <<1, 0, 1>>, <<1, 0, 2>>,
          <<0, 1, 1>>, <<0, 1, 2>>, <<1, 1, 1>>, <<1, 1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>>>
Opt(r, k) == LET d == Dirs[k] IN (((r % 3) * d[1]) + (((r \div 3) % 3) * d[2]) + ((r \div 9) * d[3])) % 3
ASSUME \A i, j \in 1..13 : i # j => \A a, b \in 0..2 : \E r \in Row : Opt(r, i) = a /\ Opt(r, j) = b

Yes(v, default) == IF v = 0 THEN default ELSE v = 1
Str(v) == <<"", "A", "B">>[v + 1]
Types == {"values", "grad_x1", "grad_x2", "grad_norm"}
\* where a figure goes; the quick and the most frequent first
Out(v) == <<[show |-> FALSE, file |-> FALSE], [show |-> TRUE, file |-> FALSE], [show |-> FALSE, file |-> TRUE]>>[v + 1]

MeshOpts(r) == [title |-> Opt(r, 1), orient |-> Opt(r, 2), grid |-> Opt(r, 3), axis |-> Opt(r, 4), open |-> Opt(r, 5), pad |-> Opt(r, 6), out |-> Opt(r, 7)]
MeshFig(o, es) == [kind |-> "mesh", edges |-> es, arrows |-> Yes(o.orient, FALSE), title |-> Str(o.title), grid |-> Yes(o.grid, FALSE),
  axis |-> Yes(o.axis, TRUE), open |-> Yes(o.open, FALSE), pad |-> <<10, 0, 25>>[o.pad + 1], out |-> Out(o.out)]

LocOpts(r) == [fill |-> Opt(r, 1), title |-> Opt(r, 2), colormap |-> Opt(r, 3), bar |-> Opt(r, 4), axis |-> Opt(r, 5), bdry |-> Opt(r, 6),
  tri |-> Opt(r, 7), clim |-> Opt(r, 8), log |-> Opt(r, 9), close |-> Opt(r, 10), out |-> Opt(r, 11), levels |-> Opt(r, 12)]
LocFig(o, t, f, i) == [kind |-> "local", fun |-> f, quantity |-> t, interp |-> i, fill |-> Yes(o.fill, TRUE), title |-> Str(o.title),
  colormap |-> o.colormap, bar |-> Yes(o.bar, TRUE), axis |-> Yes(o.axis, TRUE),
  edges |-> IF Yes(o.bdry, TRUE) THEN CellEdges[f] ELSE {}, tri |-> Yes(o.tri, FALSE), clim |-> o.clim, log |-> Yes(o.log, FALSE),
  open |-> ~Yes(o.close, TRUE), out |-> Out(o.out), levels |-> <<32, 6, 15>>[o.levels + 1]]

GlobOpts(r) == [fill |-> Opt(r, 1), title |-> Opt(r, 2), colormap |-> Opt(r, 3), bar |-> Opt(r, 4), axis |-> Opt(r, 5), interp |-> Opt(r, 6), out |-> Opt(r, 7)]
\* a figure that is neither shown nor saved need not be drawn
GlobFig(o, t, c) == [kind |-> "global", coef |-> c, quantity |-> t, drawn |-> o.out # 0, cells |-> 1..NCells, edges |-> 1..NEdges,
  fill |-> Yes(o.fill, TRUE), title |-> Str(o.title), colormap |-> o.colormap, bar |-> Yes(o.fill, TRUE) /\ Yes(o.bar, FALSE),
  axis |-> Yes(o.axis, FALSE), interp |-> Yes(o.interp, TRUE), open |-> FALSE, out |-> Out(o.out)]

H(r) == hist' = Append(hist, r)
Show(f) == figs' = Append(figs, f)
None == <<>>      \* no plot object, no solution

\* 0: all edges of the mesh; k: the edges of cell k
EdgesOf(x) == IF x = 0 THEN 1..NEdges ELSE CellEdges[x]
NewMesh == \E x \in 0..NCells, re \in BOOLEAN :
  m' = <<x>> /\ H([op |-> "mesh", x |-> x, re |-> re]) /\ UNCHANGED <<l, g, solved, figs>>
SetEdges == m # None /\ \E x \in 0..NCells : x # m[1] /\ m' = <<x>> /\ H([op |-> "edges", x |-> x]) /\ UNCHANGED <<l, g, solved, figs>>
DrawMesh == m # None /\ \E r \in Row : LET o == MeshOpts(r) IN
  Show(MeshFig(o, EdgesOf(m[1]))) /\ H([op |-> "draw mesh", o |-> o]) /\ UNCHANGED <<m, l, g, solved>>

NewLocal == \E x \in 1..NCells, i \in BOOLEAN : l' = <<x, i>> /\ H([op |-> "local", x |-> x, i |-> i]) /\ UNCHANGED <<m, g, solved, figs>>
SetLocal == l # None /\ \E x \in 1..NCells : x # l[1] /\ l' = <<x, l[2]>> /\ H([op |-> "function", x |-> x]) /\ UNCHANGED <<m, g, solved, figs>>
DrawLocal == l # None /\ \E r \in Row, t \in Types : LET o == LocOpts(r) IN
  Show(LocFig(o, t, l[1], l[2])) /\ H([op |-> "draw local", t |-> t, o |-> o]) /\ UNCHANGED <<m, l, g, solved>>

\* coefficients 0: those of the solution, refused before there is one
NewGlobal == \E c \in 0..2 : LET ok == c # 0 \/ solved IN
  g' = (IF ok THEN <<c>> ELSE g) /\ H([op |-> "global", c |-> c, ok |-> ok]) /\ UNCHANGED <<m, l, solved, figs>>
SetCoef == g # None /\ \E c \in 0..2 : LET ok == c # 0 \/ solved IN
  g' = (IF ok THEN <<c>> ELSE g) /\ H([op |-> "coef", c |-> c, ok |-> ok]) /\ UNCHANGED <<m, l, solved, figs>>
DrawGlobal == g # None /\ \E r \in Row, t \in Types : LET o == GlobOpts(r) IN
  Show(GlobFig(o, t, g[1])) /\ H([op |-> "draw global", t |-> t, o |-> o]) /\ UNCHANGED <<m, l, g, solved>>

Solve == ~solved /\ solved' = TRUE /\ H([op |-> "solve"]) /\ UNCHANGED <<m, l, g, figs>>
Sample == \E c \in 1..NCells : H([op |-> "sample", c |-> c]) /\ UNCHANGED <<m, l, g, solved, figs>>

Init == hist = <<>> /\ m = None /\ l = None /\ g = None /\ solved = FALSE /\ figs = <<>>
Next == Len(hist) < MaxOps /\
  \/ "mesh" \in Kinds /\ (NewMesh \/ SetEdges \/ DrawMesh)
  \/ "local" \in Kinds /\ (NewLocal \/ SetLocal \/ DrawLocal)
  \/ "global" \in Kinds /\ (NewGlobal \/ SetCoef \/ DrawGlobal \/ Solve)
  \/ "sample" \in Kinds /\ Sample
Spec == Init /\ [][Next]_vars

\* ---- what must hold of the model ----
AllCells == \A k \in 1..Len(figs) : figs[k].kind = "global" => figs[k].cells = 1..NCells /\ figs[k].edges = 1..NEdges
Current == (hist # <<>> /\ hist[Len(hist)].op = "draw global") => figs[Len(figs)].coef = g[1]
Emit == (Len(hist) = MaxOps /\ figs # <<>>) => PrintT("@@" \o ToJson([hist |-> hist, figs |-> figs]))
=============================================================================
