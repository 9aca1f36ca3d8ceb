------------------------------ MODULE LocalAlg ------------------------------
(* C17: arithmetic of local functions.  Every function is a linear           *)
(* combination of three base functions; a whole function has a harmonic and  *)
(* a polynomial part, which are local functions of their own.                *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS MaxLen, EmitAll

VARIABLES st, hist
vars == <<st, hist>>
V == 1..3                       \* variables
B == 1..3                       \* base functions
Kinds == {"whole", "harm", "poly"}
Scalars == {<<-2, 1>>, <<1, 2>>, <<0, 1>>, <<3, 1>>}
\* interior values and gradients that were asked for with each base function
Given == <<[v |-> TRUE, g |-> TRUE], [v |-> TRUE, g |-> FALSE], [v |-> FALSE, g |-> FALSE]>>

Zero == [b \in B |-> QZero]
Unit(b) == [Zero EXCEPT ![b] = QOne]
Add(u, v) == [b \in B |-> QAdd(u[b], v[b])]
Scale(c, u) == [b \in B |-> QMul(c, u[b])]
None == [def |-> FALSE]
\* tied: may share data with another variable, by design of the history
Fun(kind, vec, known, tied) == [def |-> TRUE, kind |-> kind, vec |-> vec, known |-> known, tied |-> tied]
And(p, q) == [v |-> p.v /\ q.v, g |-> p.g /\ q.g]

H(r) == hist' = Append(hist, r)
Def(x) == st[x].def
Put(x, f, r) == st' = [st EXCEPT ![x] = f] /\ H(r)
New == \E x \in V, b \in B, full \in BOOLEAN :
  Put(x, Fun("whole", Unit(b), IF full THEN [v |-> TRUE, g |-> TRUE] ELSE Given[b], FALSE),
      [op |-> "new", x |-> x, b |-> b, full |-> full])
\* a part of a whole function is shared with it
Part == \E x \in V, y \in V, k \in {"harm", "poly"} : Def(y) /\ st[y].kind = "whole" /\ x # y /\
  /\ st' = [st EXCEPT ![x] = Fun(k, st[y].vec, [v |-> FALSE, g |-> FALSE], TRUE), ![y].tied = TRUE]
  /\ H([op |-> "part", x |-> x, y |-> y, k |-> k])
\* a second name for the same object
Name == \E x \in V, y \in V : Def(y) /\ x # y /\
  /\ st' = [st EXCEPT ![x] = [st[y] EXCEPT !.tied = TRUE], ![y].tied = TRUE]
  /\ H([op |-> "name", x |-> x, y |-> y])
Small(f) == \A b \in B : Abs(f.vec[b][1]) <= 500 /\ f.vec[b][2] <= 64
Sum == \E x \in V, y \in V, z \in V, s \in {1, -1} : Def(y) /\ Def(z) /\
  /\ st[y].kind = st[z].kind /\ Small(st[y]) /\ Small(st[z])
  /\ \E inplace \in BOOLEAN : (inplace => x = y) /\
     Put(x, Fun(st[y].kind, Add(st[y].vec, Scale(QInt(s), st[z].vec)), And(st[y].known, st[z].known), FALSE),
         [op |-> IF s = 1 THEN "add" ELSE "sub", x |-> x, y |-> y, z |-> z, inplace |-> inplace])
Mul == \E x \in V, y \in V, c \in Scalars, o \in {"mul", "rmul", "div"} : Def(y) /\ Small(st[y]) /\ (o = "div" => c[1] # 0) /\
  Put(x, Fun(st[y].kind, Scale(IF o = "div" THEN QInv(c) ELSE c, st[y].vec), st[y].known, FALSE),
      [op |-> o, x |-> x, y |-> y, c |-> c])
\* overwrite all data of a function: nothing else may change
Scribble == \E x \in V : Def(x) /\ ~st[x].tied /\ (\E y \in V : y # x /\ Def(y)) /\
  Put(x, None, [op |-> "scribble", x |-> x])
\* use a function: products leave it as it is
Use == \E x \in V : Def(x) /\ st' = st /\ H([op |-> "use", x |-> x])

Init == st = [x \in V |-> None] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ New /\ Cardinality({x \in V : Def(x)}) < 3 /\ Len(hist) < 4
           \/ Part \/ Name \/ Sum \/ Mul
           \/ (hist # <<>> /\ hist[Len(hist)].op \notin {"scribble", "use"} /\ (Scribble \/ Use))
Spec == Init /\ [][Next]_vars

\* what must be refused in any state
Bad == {"add-number", "add-none", "add-poly-object", "add-other-kind", "sub-number", "div-zero", "div-fun", "mul-str", "mul-fun"}

Live == {x \in V : Def(x)}
Laws == \A x, y, z \in Live : LET u == st[x].vec v == st[y].vec w == st[z].vec IN
  /\ Add(u, v) = Add(v, u) /\ Add(Add(u, v), w) = Add(u, Add(v, w))
  /\ Scale(<<3, 1>>, Add(u, v)) = Add(Scale(<<3, 1>>, u), Scale(<<3, 1>>, v))
  /\ Add(u, Scale(<<-1, 1>>, u)) = Zero
Emit == (hist # <<>> /\ (EmitAll \/ Len(hist) = MaxLen)) => PrintT("@@" \o ToJson(
  [hist |-> hist, bad |-> IF EmitAll THEN Bad ELSE {},
   now |-> [x \in V |-> IF Def(x) THEN <<[kind |-> st[x].kind, vec |-> st[x].vec, known |-> st[x].known]>> ELSE <<>>]]))
=============================================================================
