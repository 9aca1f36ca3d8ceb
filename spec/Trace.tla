------------------------------- MODULE Trace -------------------------------
(* C13: Dirichlet traces.  The values of a trace on an edge are a linear     *)
(* combination of atoms: functions, polynomials, constants, given arrays.    *)
EXTENDS Rat, FiniteSets, TLC, Json

CONSTANTS NumEdges, MaxLen, EmitAll

VARIABLES tr, hist
vars == <<tr, hist>>
E == 1..NumEdges
T == 1..3
Callables == {"f", "g"}
Polys == {"p", "q"}
Arrays == {"a", "b"}
Atoms == {"one"} \cup Callables \cup Polys \cup Arrays
Scalars == {<<-2, 1>>, <<1, 2>>, <<0, 1>>, <<3, 1>>}

Vec(x) == [y \in Atoms |-> IF x = y THEN QOne ELSE QZero]
Const(c) == [y \in Atoms |-> IF y = "one" THEN c ELSE QZero]
VAdd(u, v) == [y \in Atoms |-> QAdd(u[y], v[y])]
VScale(c, v) == [y \in Atoms |-> QMul(c, v[y])]
None == [def |-> FALSE]
Some(v) == [def |-> TRUE, v |-> v]
\* a trace: values, defining function per edge ("-": unknown), derivatives
Mk(vals, fs) == [def |-> TRUE, vals |-> vals, fs |-> fs, wn |-> None, wt |-> None]
NoFuns == [e \in E |-> "-"]
\* lists of functions, one per edge
Pattern(x, y) == [e \in E |-> IF e % 2 = 1 THEN x ELSE y]
FunLists == {Pattern("f", "g"), Pattern("p", "f"), Pattern("q", "p"), Pattern("g", "q")}
PolyLists == {Pattern("q", "p"), Pattern("p", "q")}
\* lists of values: arrays and scalars
Item(x) == IF x \in Atoms THEN Vec(x) ELSE Const(<<5, 2>>)
ValLists == {Pattern("a", "b"), Pattern("b", "#"), Pattern("#", "a")}

H(r) == hist' = Append(hist, r)
Def(t) == tr[t].def
Set(t, x, r) == tr' = [tr EXCEPT ![t] = x] /\ H(r)

New == \E t \in T :
  \/ \E x \in Callables \cup Polys, via \in {"cell", "list"} :
       Set(t, Mk([e \in E |-> Vec(x)], [e \in E |-> x]), [op |-> "new-fun", t |-> t, x |-> x, via |-> via])
  \/ \E l \in FunLists : Set(t, Mk([e \in E |-> Vec(l[e])], l), [op |-> "new-funs", t |-> t, l |-> l])
  \/ \E c \in Scalars : Set(t, Mk([e \in E |-> Const(c)], NoFuns), [op |-> "new-const", t |-> t, c |-> c])
  \/ \E x \in Arrays : Set(t, Mk([e \in E |-> Vec(x)], NoFuns), [op |-> "new-array", t |-> t, x |-> x])
  \/ \E l \in ValLists : Set(t, Mk([e \in E |-> Item(l[e])], NoFuns), [op |-> "new-list", t |-> t, l |-> l])
  \/ Set(t, Mk([e \in E |-> Const(QZero)], NoFuns), [op |-> "new-default", t |-> t])
  \/ \E x \in Arrays : Set(t, Mk([e \in E |-> Vec(x)], NoFuns), [op |-> "new-custom", t |-> t, x |-> x])

\* assignments to an existing trace keep its derivative data
Put(t, vals, fs, r) == Set(t, [tr[t] EXCEPT !.vals = vals, !.fs = fs], r)
Assign == \E t \in T : Def(t) /\
  \/ \E x \in Callables \cup Polys : Put(t, [e \in E |-> Vec(x)], [e \in E |-> x], [op |-> "set-fun", t |-> t, x |-> x])
  \/ \E l \in FunLists, lazy \in BOOLEAN :
       Put(t, [e \in E |-> Vec(l[e])], l, [op |-> "set-funs", t |-> t, l |-> l, lazy |-> lazy])
  \/ \E x \in Polys : Put(t, [e \in E |-> Vec(x)], [e \in E |-> x], [op |-> "set-poly", t |-> t, x |-> x])
  \/ \E l \in PolyLists : Put(t, [e \in E |-> Vec(l[e])], l, [op |-> "set-polys", t |-> t, l |-> l])
  \/ \E e \in E, x \in Polys :
       Put(t, [tr[t].vals EXCEPT ![e] = Vec(x)], [tr[t].fs EXCEPT ![e] = x], [op |-> "poly-on", t |-> t, e |-> e, x |-> x])
  \/ \E c \in Scalars : Put(t, [e \in E |-> Const(c)], NoFuns, [op |-> "set-const", t |-> t, c |-> c])
  \/ \E x \in Arrays : Put(t, [e \in E |-> Vec(x)], NoFuns, [op |-> "set-array", t |-> t, x |-> x])
  \/ \E l \in ValLists : Put(t, [e \in E |-> Item(l[e])], NoFuns, [op |-> "set-list", t |-> t, l |-> l])
  \/ \E e \in E, c \in Scalars :
       Put(t, [tr[t].vals EXCEPT ![e] = Const(c)], [tr[t].fs EXCEPT ![e] = "-"], [op |-> "const-on", t |-> t, e |-> e, c |-> c])
  \/ \E e \in E, x \in Arrays :
       Put(t, [tr[t].vals EXCEPT ![e] = Vec(x)], [tr[t].fs EXCEPT ![e] = "-"], [op |-> "array-on", t |-> t, e |-> e, x |-> x])
  \* a function on one edge and re-evaluation of all functions
  \/ \E e \in E, x \in Callables : (\A d \in E : d = e \/ tr[t].fs[d] # "-") /\
       LET fs == [tr[t].fs EXCEPT ![e] = x] IN
       Put(t, [d \in E |-> Vec(fs[d])], fs, [op |-> "fun-on", t |-> t, e |-> e, x |-> x])

\* derivative data: set whole or on one edge
Deriv == \E t \in T, w \in {"wn", "wt"} : Def(t) /\
  \/ \E x \in Arrays : Set(t, [tr[t] EXCEPT ![w] = Some([e \in E |-> Vec(x)])], [op |-> "deriv", t |-> t, w |-> w, x |-> x])
  \/ \E e \in E, c \in {<<3, 1>>} :
       LET old == IF tr[t][w].def THEN tr[t][w].v ELSE [d \in E |-> Const(QZero)] IN
       Set(t, [tr[t] EXCEPT ![w] = Some([old EXCEPT ![e] = Const(c)])], [op |-> "deriv-on", t |-> t, w |-> w, e |-> e, c |-> c])

Comb(c, u, d, v) == [e \in E |-> VAdd(VScale(c, u[e]), VScale(d, v[e]))]
CombD(c, u, d, v) == IF u.def /\ v.def THEN Some(Comb(c, u.v, d, v.v)) ELSE None
ScaleD(c, u) == IF u.def THEN Some([e \in E |-> VScale(c, u.v[e])]) ELSE None
Small(x) == \A e \in E, y \in Atoms : Abs(x.vals[e][y][1]) <= 200 /\ x.vals[e][y][2] <= 64
Arith == \E d \in T, a \in T : Def(a) /\ Small(tr[a]) /\
  \/ \E b \in T, s \in {1, -1} : Def(b) /\ Small(tr[b]) /\
       Set(d, [def |-> TRUE, vals |-> Comb(QOne, tr[a].vals, QInt(s), tr[b].vals), fs |-> NoFuns,
               wn |-> CombD(QOne, tr[a].wn, QInt(s), tr[b].wn), wt |-> CombD(QOne, tr[a].wt, QInt(s), tr[b].wt)],
           [op |-> IF s = 1 THEN "add" ELSE "sub", t |-> d, a |-> a, b |-> b])
  \/ \E c \in Scalars, o \in {"mul", "rmul", "div"} : (o = "div" => c[1] # 0) /\
       LET k == IF o = "div" THEN QInv(c) ELSE c IN
       Set(d, [def |-> TRUE, vals |-> [e \in E |-> VScale(k, tr[a].vals[e])], fs |-> NoFuns,
               wn |-> ScaleD(k, tr[a].wn), wt |-> ScaleD(k, tr[a].wt)],
           [op |-> o, t |-> d, a |-> a, c |-> c])

\* sample the cell anew and evaluate the functions of every trace again
Resample == /\ \A t \in T : Def(t) => \A e \in E : tr[t].fs[e] # "-"
            /\ \E t \in T : Def(t)
            /\ \A t \in T : Def(t) => ~tr[t].wn.def /\ ~tr[t].wt.def
            /\ \E n \in {4, 6, 9} :
                 \/ H([op |-> "resample", n |-> n]) /\ UNCHANGED tr
                 \* a polynomial on one edge then takes all values along
                 \/ \E e \in E, x \in Polys :
                      /\ H([op |-> "resample-poly", n |-> n, e |-> e, x |-> x])
                      /\ tr' = [t \in T |-> IF Def(t) THEN [tr[t] EXCEPT !.vals[e] = Vec(x), !.fs[e] = x] ELSE tr[t]]

Init == tr = [t \in T |-> [def |-> FALSE]] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ New /\ (hist = <<>> \/ \E t \in T : ~Def(t) /\ Len(hist) < 3)
           \/ Assign \/ Deriv \/ Arith \/ Resample
Spec == Init /\ [][Next]_vars

\* rejected data, in any state
Bad == {"long-array", "short-array", "short-list", "long-list", "str-item", "edge-high", "edge-negative",
        "edge-float", "few-funs", "many-funs", "one-argument", "not-callable", "long-on", "short-on", "not-poly",
        "add-number", "add-none", "mul-trace", "div-zero", "mul-str", "edges-str", "edges-mixed", "deriv-short",
        "deriv-edge", "polys-mixed", "polys-none", "unit-on", "list-short-item", "str-on", "deriv-on-short",
        "deriv-on-str", "deriv-list", "first-fun"}

Live == {t \in T : Def(t)}
\* the trace algebra is a vector space
Laws == \A a \in Live, b \in Live :
  /\ Comb(QOne, tr[a].vals, QOne, tr[b].vals) = Comb(QOne, tr[b].vals, QOne, tr[a].vals)
  /\ Comb(QOne, tr[a].vals, <<-1, 1>>, tr[a].vals) = [e \in E |-> Const(QZero)]
NonZero(v) == {<<y, v[y]>> : y \in {y \in Atoms : v[y] # QZero}}
Out(u) == [e \in E |-> NonZero(u[e])]
Emit == (hist # <<>> /\ (EmitAll \/ Len(hist) = MaxLen)) => PrintT("@@" \o ToJson(
  [hist |-> hist, bad |-> IF EmitAll THEN Bad ELSE {},
   now |-> [t \in T |-> IF ~Def(t) THEN <<>> ELSE <<[vals |-> Out(tr[t].vals),
       wn |-> IF tr[t].wn.def THEN <<Out(tr[t].wn.v)>> ELSE <<>>,
       wt |-> IF tr[t].wt.def THEN <<Out(tr[t].wt.v)>> ELSE <<>>]>>]]))
=============================================================================
