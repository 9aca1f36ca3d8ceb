------------------------------ MODULE Requests ------------------------------
(* C27: requests to set data of edges, cells, contours, vertices and keys.    *)
(* A request is granted, and then has exactly its stated effect, or refused,  *)
(* and then has none.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, EmitAll, Focus     \* Focus: the objects addressed

VARIABLES obj, hist
vars == <<obj, hist>>

\* data of requests: whole numbers, numbers in halves, text, nothing
Whole(v) == [k |-> "int", v |-> v]
Flt(h) == [k |-> "float", v |-> h]
Txt == [k |-> "text", v |-> 0]
Nil == [k |-> "none", v |-> 0]
Data == {Whole(-2), Whole(0), Whole(1), Whole(3), Flt(-1), Flt(0), Flt(1), Flt(4), Txt, Nil}
IsInt(x) == x.k = "int"
IsNum(x) == x.k \in {"int", "float"}
Halves(x) == IF IsInt(x) THEN 2 * x.v ELSE x.v

Complete == {"line", "circle", "teardrop", "bean"}      \* need no options
\* a full turn, told from whole numbers of halves by a number of its own
TurnHalves == 13
Turn == [k |-> "turn", v |-> TurnHalves]
Closed(e) == e.curve \in {"circle", "teardrop", "bean"} /\ e.ta = 0 /\ e.tb = TurnHalves
Lacking == {"sine_wave", "circular_arc_deg", "ellipse", "spline"}   \* need options not given here
Unknown == {"nosuch", "Line", ""}
Types == {"vert", "edge", "bubb"}
Parts == {"vert_idx", "edge_idx", "edge_space_idx", "bubb_space_idx"}
PartOf == [vert_idx |-> "vert", edge_idx |-> "edge", edge_space_idx |-> "edge", bubb_space_idx |-> "bubb"]

None == <<>>
Some(x) == <<x>>
TypeOf(o) == o
Init0 == [
  edge |-> [idx |-> None, ta |-> 0, tb |-> 4, pos |-> 0, neg |-> -1, curve |-> "line", quad |-> "kress", sample |-> None],
  cell |-> [idx |-> 0, rtol |-> 2, atol |-> 1],
  contour |-> [id |-> 0, edges |-> <<>>, orients |-> <<>>],
  vert |-> [idx |-> -1, x |-> 2, y |-> -3],
  key |-> [type |-> "vert", idx |-> [p \in Parts |-> IF p = "vert_idx" THEN 5 ELSE -1], glob |-> None]]

Ask(o, op, args, ok, new) ==
  /\ obj' = IF ok THEN [obj EXCEPT ![o] = new] ELSE obj
  /\ hist' = Append(hist, [on |-> o, op |-> op, args |-> args, ok |-> ok])

BoundsOK(a, b) == IsNum(a) /\ IsNum(b) /\ Halves(a) < Halves(b)
EdgeAsk == LET e == obj.edge IN
  \/ \E x \in Data : Ask("edge", "set_idx", <<x>>, x = Nil \/ (IsInt(x) /\ x.v >= 0),
                         IF x = Nil THEN e ELSE [e EXCEPT !.idx = Some(x.v)])
  \/ \E a, b \in Data : Ask("edge", "set_t_bounds", <<a, b>>, BoundsOK(a, b), [e EXCEPT !.ta = Halves(a), !.tb = Halves(b)])
  \/ \E c \in Complete \cup Lacking \cup Unknown : Ask("edge", "set_curve_type", <<c>>, c \notin Unknown, [e EXCEPT !.curve = c])
  \/ Ask("edge", "set_curve_type", <<Whole(3)>>, FALSE, e)
  \/ \E p, q \in {-1, 0, 2} : Ask("edge", "set_cells", <<p, q>>, TRUE, [e EXCEPT !.pos = p, !.neg = q])
  \/ Ask("edge", "set_t_bounds", <<Whole(0), Turn>>, TRUE, [e EXCEPT !.ta = 0, !.tb = TurnHalves])
  \/ \E n \in {Whole(3), Whole(4), Whole(6), Flt(10), Txt}, p \in {Whole(1), Whole(2), Whole(7)} :
          Ask("edge", "parameterize", <<n, p>>,
              /\ IsInt(n) /\ n.v >= 4 /\ p.v >= 2 /\ e.quad # "gauss" /\ e.curve \in Complete
              /\ ~Closed(e),        \* a closed curve cannot join two vertices
              [e EXCEPT !.sample = Some([curve |-> e.curve, quad |-> e.quad, ta |-> e.ta, tb |-> e.tb, n |-> n.v, p |-> p.v])])
  \/ Ask("edge", "deparameterize", <<>>, TRUE, [e EXCEPT !.sample = None])
  \/ \E x \in {Nil, Whole(3), Whole(-2), Txt}, b \in {Whole(1), Flt(-1), Txt}, q \in {"kress", "trap", "gauss"} :
       Ask("edge", "new", <<x, b, q>>, x \in {Nil, Whole(3)} /\ BoundsOK(Whole(0), b),
           [e EXCEPT !.idx = IF x = Nil THEN None ELSE Some(x.v), !.ta = 0, !.tb = Halves(b), !.quad = q, !.sample = None])

\* the requests that decide whether an edge can be sampled, and how
SampleAsk == LET e == obj.edge IN
  \/ \E c \in {"line", "circle", "ellipse"} : Ask("edge", "set_curve_type", <<c>>, TRUE, [e EXCEPT !.curve = c])
  \/ \E b \in {Turn, Whole(1)} : Ask("edge", "set_t_bounds", <<Whole(0), b>>, TRUE, [e EXCEPT !.ta = 0, !.tb = IF b = Turn THEN TurnHalves ELSE 2])
  \/ \E n \in {3, 4, 6} : Ask("edge", "parameterize", <<Whole(n), Whole(7)>>,
        n # 3 /\ e.quad # "gauss" /\ e.curve \in Complete /\ ~Closed(e),
        [e EXCEPT !.sample = Some([curve |-> e.curve, quad |-> e.quad, ta |-> e.ta, tb |-> e.tb, n |-> n, p |-> 7])])
  \/ Ask("edge", "deparameterize", <<>>, TRUE, [e EXCEPT !.sample = None])

Positive(x) == IsNum(x) /\ Halves(x) > 0
CellAsk == LET c == obj.cell IN
  \/ \E x \in Data : Ask("cell", "set_idx", <<x>>, IsInt(x) /\ x.v >= 0, [c EXCEPT !.idx = x.v])
  \/ \E r, a \in Data : Ask("cell", "set_interior_point_tolerance", <<r, a>>, Positive(r) /\ Positive(a),
                            [c EXCEPT !.rtol = Halves(r), !.atol = Halves(a)])

E == 1..3
Orient == {Whole(1), Whole(-1), Whole(0), Whole(2), Txt, Nil}
Add(c, e, o) == IF \E k \in DOMAIN c.edges : c.edges[k] = e THEN c
                ELSE [c EXCEPT !.edges = Append(@, e), !.orients = Append(@, o)]
ContourAsk == LET c == obj.contour IN
  \/ \E x \in Data : Ask("contour", "set_mesh_id", <<x>>, IsInt(x) /\ x.v >= 0, [c EXCEPT !.id = x.v])
  \/ \E e \in E, o \in Orient : Ask("contour", "add_edge", <<e, o>>, o \in {Whole(1), Whole(-1)}, Add(c, e, o.v))
  \/ \E d, e \in E, n \in 0..3 : d # e /\ Ask("contour", "add_edges", <<d, e, n>>, n = 2, Add(Add(c, d, 1), e, -1))
  \/ \E e \in E, n \in {0, 2} : Ask("contour", "new", <<e, n>>, FALSE, c)
  \/ Ask("contour", "new", <<1, 1>>, TRUE, [id |-> 4, edges |-> <<1>>, orients |-> <<1>>])

VertAsk == LET v == obj.vert IN
  \/ \E x \in Data : Ask("vert", "set_idx", <<x>>, IsInt(x), [v EXCEPT !.idx = x.v])
  \/ \E a, b \in Data : Ask("vert", "set_coord", <<a, b>>, IsNum(a) /\ IsNum(b), [v EXCEPT !.x = Halves(a), !.y = Halves(b)])
  \/ \E a \in Data, x \in {Whole(2), Flt(1), Nil} :
       Ask("vert", "new", <<a, x>>, IsNum(a) /\ IsInt(x), [idx |-> x.v, x |-> Halves(a), y |-> 1])

KeyAsk == LET k == obj.key IN
  \/ \E t \in {k.type, "face", "Vert", ""} : Ask("key", "set_fun_type", <<t>>, t = k.type, k)
  \/ \E p \in Parts, x \in Data :
       Ask("key", "set_" \o p, <<x>>, IsInt(x), [k EXCEPT !.idx[p] = IF PartOf[p] = k.type THEN x.v ELSE -1])
  \/ \E x \in Data : Ask("key", "set_glob_idx", <<x>>, IsInt(x) /\ x.v >= 0, [k EXCEPT !.glob = Some(x.v)])
  \/ \E t \in Types \cup {"face"}, x \in {Whole(3), Flt(4), Txt} :
       Ask("key", "new", <<t, x>>, t \in Types /\ IsInt(x),
           [type |-> t, idx |-> [p \in Parts |-> IF PartOf[p] = t THEN x.v ELSE -1], glob |-> None])

Init == obj = Init0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ "edge" \in Focus /\ EdgeAsk
           \/ "sampling" \in Focus /\ SampleAsk
           \/ "cell" \in Focus /\ CellAsk
           \/ "contour" \in Focus /\ ContourAsk
           \/ "vert" \in Focus /\ VertAsk
           \/ "key" \in Focus /\ KeyAsk
Spec == Init /\ [][Next]_vars

\* what requests can never bring about
Sound ==
  /\ obj.edge.ta < obj.edge.tb /\ obj.edge.curve \in Complete \cup Lacking
  /\ \A i \in DOMAIN obj.edge.idx : obj.edge.idx[i] >= 0
  /\ \A i \in DOMAIN obj.edge.sample : obj.edge.sample[i].curve \in Complete /\ obj.edge.sample[i].quad # "gauss"
  /\ obj.cell.idx >= 0 /\ obj.cell.rtol > 0 /\ obj.cell.atol > 0
  /\ Len(obj.contour.edges) = Len(obj.contour.orients) /\ obj.contour.id >= 0
  /\ \A i, j \in DOMAIN obj.contour.edges : i # j => obj.contour.edges[i] # obj.contour.edges[j]
  /\ \A i \in DOMAIN obj.contour.orients : obj.contour.orients[i] \in {1, -1}
  /\ obj.key.type \in Types /\ \A p \in Parts : PartOf[p] # obj.key.type => obj.key.idx[p] = -1
RefusedChangesNothing == [][hist' # hist /\ ~hist'[Len(hist')].ok => obj' = obj]_vars
OneAtATime == [][\A o \in DOMAIN obj : obj'[o] # obj[o] => hist'[Len(hist')].on = o]_vars

Emit == (hist # <<>> /\ (EmitAll \/ Len(hist) = MaxLen)) => PrintT("@@" \o ToJson([hist |-> hist, obj |-> obj]))
=============================================================================
