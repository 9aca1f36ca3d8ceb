------------------------------- MODULE Values -------------------------------
(* C25: vertices (points of the plane with a number) and monomials (terms    *)
(* c x^i y^j) as values.  Three variables hold objects; operators make new   *)
(* objects, setters change the object that one or more variables hold, and   *)
(* operations that are refused change nothing.                               *)
EXTENDS Rat, Json, TLC

CONSTANTS Kind, Seeds, MaxLen, EmitAll, Exact

VARIABLES heap, ref, hist
vars == <<heap, ref, hist>>
Vars == 1..3
Val(v) == heap[ref[v]]
H(r) == hist' = Append(hist, r)
SmallQ(q, n, d) == Abs(q[1]) <= n /\ q[2] <= d
Bind(d, o, r) == /\ heap' = Append(heap, o) /\ ref' = [ref EXCEPT ![d] = Len(heap) + 1] /\ H(r)
Put(a, o, r) == /\ heap' = [heap EXCEPT ![ref[a]] = o] /\ UNCHANGED ref /\ H(r)
Refuse(r) == UNCHANGED <<heap, ref>> /\ H(r @@ [bad |-> TRUE])
Alias == \E d \in Vars, a \in Vars :
   /\ ref[d] # ref[a] /\ ref' = [ref EXCEPT ![d] = ref[a]] /\ UNCHANGED heap
   /\ H([op |-> "alias", d |-> d, a |-> a])

\* ---- vertices: [x, y, idx] ----
Scalars == {QZero, QOne, QInt(2), <<-1, 2>>, <<3, 1>>}
Pt(x, y) == [x |-> x, y |-> y, idx |-> -1]
VBind(d, x, y, r) == SmallQ(x, 400, Exact) /\ SmallQ(y, 400, Exact) /\ Bind(d, Pt(x, y), r)
VAdd(p, q) == Pt(QAdd(p.x, q.x), QAdd(p.y, q.y))
VSub(p, q) == Pt(QSub(p.x, q.x), QSub(p.y, q.y))
VMul(p, q) == Pt(QMul(p.x, q.x), QMul(p.y, q.y))
VScale(c, p) == Pt(QMul(c, p.x), QMul(c, p.y))
VDiv(p, q) == Pt(QDiv(p.x, q.x), QDiv(p.y, q.y))
VSame(p, q) == p.x = q.x /\ p.y = q.y
New(d, p, r) == VBind(d, p.x, p.y, r)
VertOps ==
  \/ \E d \in Vars, a \in Vars, b \in Vars :
       \/ New(d, VAdd(Val(a), Val(b)), [op |-> "add", d |-> d, a |-> a, b |-> b])
       \/ New(d, VSub(Val(a), Val(b)), [op |-> "sub", d |-> d, a |-> a, b |-> b])
       \/ New(d, VMul(Val(a), Val(b)), [op |-> "mul", d |-> d, a |-> a, b |-> b])
       \/ /\ Val(b).x # QZero /\ Val(b).y # QZero
          /\ New(d, VDiv(Val(a), Val(b)), [op |-> "div", d |-> d, a |-> a, b |-> b])
       \/ /\ Val(b).x = QZero \/ Val(b).y = QZero
          /\ Refuse([op |-> "div", d |-> d, a |-> a, b |-> b])
  \/ \E d \in Vars, a \in Vars, c \in Scalars :
       \/ New(d, VScale(c, Val(a)), [op |-> "muls", d |-> d, a |-> a, c |-> c])
       \/ New(d, VScale(c, Val(a)), [op |-> "rmuls", d |-> d, a |-> a, c |-> c])
       \/ c # QZero /\ New(d, VScale(QInv(c), Val(a)), [op |-> "divs", d |-> d, a |-> a, c |-> c])
       \/ c = QZero /\ Refuse([op |-> "divs", d |-> d, a |-> a, c |-> c])
  \/ \E a \in Vars, x \in Scalars, y \in Scalars :
       Put(a, [Val(a) EXCEPT !.x = x, !.y = y], [op |-> "setc", a |-> a, c |-> x, e |-> y])
  \/ \E a \in Vars, k \in {-1, 0, 7} : Put(a, [Val(a) EXCEPT !.idx = k], [op |-> "seti", a |-> a, k |-> k])
  \/ \E a \in Vars : Refuse([op |-> "badset", a |-> a])

\* ---- monomials: [c, i, j]; the product adds the exponents ----
Mono(c, i, j) == [c |-> c, i |-> i, j |-> j]
MBind(d, m, r) == SmallQ(m.c, 2000, Exact) /\ m.i + m.j <= 9 /\ Bind(d, m, r)
Idx(i, j) == ((i + j) * (i + j + 1)) \div 2 + j
FromIdx(k) == LET t == CHOOSE s \in 0..20 : (s * (s + 1)) \div 2 <= k /\ k < ((s + 1) * (s + 2)) \div 2
              IN <<t - (k - (t * (t + 1)) \div 2), k - (t * (t + 1)) \div 2>>
D(m, v) == LET e == IF v = "x" THEN m.i ELSE m.j IN
  IF e = 0 THEN Mono(QZero, 0, 0)
  ELSE Mono(QMul(QInt(e), m.c), IF v = "x" THEN m.i - 1 ELSE m.i, IF v = "x" THEN m.j ELSE m.j - 1)
MonoOps ==
  \/ \E d \in Vars, a \in Vars, b \in Vars :
       \/ /\ Val(a).i = Val(b).i /\ Val(a).j = Val(b).j
          /\ MBind(d, Mono(QAdd(Val(a).c, Val(b).c), Val(a).i, Val(a).j), [op |-> "add", d |-> d, a |-> a, b |-> b])
       \/ /\ <<Val(a).i, Val(a).j>> # <<Val(b).i, Val(b).j>>
          /\ Refuse([op |-> "add", d |-> d, a |-> a, b |-> b])
       \/ MBind(d, Mono(QMul(Val(a).c, Val(b).c), Val(a).i + Val(b).i, Val(a).j + Val(b).j), [op |-> "mul", d |-> d, a |-> a, b |-> b])
  \/ \E d \in Vars, a \in Vars, c \in Scalars :
       \/ MBind(d, Mono(QMul(c, Val(a).c), Val(a).i, Val(a).j), [op |-> "muls", d |-> d, a |-> a, c |-> c])
       \/ MBind(d, Mono(QMul(c, Val(a).c), Val(a).i, Val(a).j), [op |-> "rmuls", d |-> d, a |-> a, c |-> c])
  \/ \E d \in Vars, a \in Vars :
       \/ MBind(d, Mono(QNeg(Val(a).c), Val(a).i, Val(a).j), [op |-> "neg", d |-> d, a |-> a])
       \/ MBind(d, Val(a), [op |-> "copy", d |-> d, a |-> a])
       \/ \E v \in {"x", "y"} :
            \/ MBind(d, D(Val(a), v), [op |-> "deriv", d |-> d, a |-> a, v |-> v])
            \/ MBind(d, D(Val(a), v), [op |-> "grad", d |-> d, a |-> a, v |-> v])
       \/ Refuse([op |-> "deriv", d |-> d, a |-> a, v |-> "z"])
  \/ \E a \in Vars :
       \/ \E c \in Scalars : Put(a, [Val(a) EXCEPT !.c = c], [op |-> "setcoef", a |-> a, c |-> c])
       \/ \E k \in {0, 1, 2, 4, 5, 8} :
            Put(a, [Val(a) EXCEPT !.i = FromIdx(k)[1], !.j = FromIdx(k)[2]], [op |-> "setidx", a |-> a, k |-> k])
       \/ \E b \in Vars : Put(a, [Val(a) EXCEPT !.i = Val(b).j, !.j = Val(b).i], [op |-> "swap", a |-> a, b |-> b])

Init == /\ \E k \in 1..Len(Seeds) : heap = Seeds[k]
        /\ ref = [v \in Vars |-> v]
        /\ hist = <<[op |-> "start", p |-> heap]>>
Next == Len(hist) <= MaxLen /\ (Alias \/ IF Kind = "vert" THEN VertOps ELSE MonoOps)
Spec == Init /\ [][Next]_vars

\* ---- laws ----
Laws ==
  LET p == Val(1) q == Val(2) r == Val(3) IN
  IF Kind = "vert" THEN
    /\ VSame(VAdd(p, q), VAdd(q, p)) /\ VSame(VAdd(VSub(p, q), q), p)
    /\ VSame(VScale(QInt(2), VAdd(p, q)), VAdd(VScale(QInt(2), p), VScale(QInt(2), q)))
    /\ (q.x # QZero /\ q.y # QZero) => VSame(VMul(VDiv(p, q), q), p)
  ELSE /\ \A v \in Vars : FromIdx(Idx(Val(v).i, Val(v).j)) = <<Val(v).i, Val(v).j>>
       /\ (p.i + p.j < q.i + q.j) => Idx(p.i, p.j) < Idx(q.i, q.j)
       \* mixed derivatives agree, up to the exponents of zero
       /\ D(D(p, "x"), "y").c = D(D(p, "y"), "x").c
Equal(o, u) == IF Kind = "vert" THEN VSame(o, u) ELSE o = u
QSqSmall(q) == Abs(q[1]) <= 400 /\ q[2] <= 60
More(o) == IF Kind = "vert" THEN [n2 |-> IF QSqSmall(o.x) /\ QSqSmall(o.y) THEN <<QAdd(QMul(o.x, o.x), QMul(o.y, o.y))>> ELSE <<>>]
           ELSE [idx |-> Idx(o.i, o.j), at |-> IF Abs(o.c[1]) < 2000 THEN <<QMul(o.c, QMul(QPow(QInt(2), o.i), QPow(QInt(-3), o.j)))>> ELSE <<>>]
Emit == (EmitAll \/ Len(hist) = MaxLen + 1) => PrintT("@@" \o ToJson(
  [hist |-> hist, now |-> [v \in Vars |-> Val(v)], ref |-> ref, more |-> [v \in Vars |-> More(Val(v))],
   eq |-> [v \in Vars |-> [w \in Vars |-> Equal(Val(v), Val(w))]],
   gt |-> IF Kind = "vert" THEN <<>> ELSE [v \in Vars |-> [w \in Vars |-> Idx(Val(v).i, Val(v).j) > Idx(Val(w).i, Val(w).j)]]]))
=============================================================================
