------------------------------ MODULE PolyHeap ------------------------------
(* C10: histories of operations on three variables that hold polynomial      *)
(* objects.  In-place operations change the object, hence every variable     *)
(* that holds it; all other operations make a new object.                    *)
EXTENDS Poly, Json

CONSTANTS Seeds, MaxLen, MaxDeg, EmitAll

VARIABLES heap, ref, hist
vars == <<heap, ref, hist>>
Vars == 1..3
Val(v) == heap[ref[v]]
Consts == {QZero, <<-1, 1>>, <<1, 2>>, <<3, 1>>}
Lists == {<<>>, <<<<<<1, 1>>, 1, 0>>, <<<<-1, 1>>, 1, 0>>>>,
          <<<<<<2, 1>>, 0, 1>>, <<<<1, 1>>, 2, 0>>, <<<<0, 1>>, 3, 3>>, <<<<1, 2>>, 0, 1>>, <<<<1, 1>>, 0, 0>>>>}
IdxLists == {<<>>, <<<<<<1, 1>>, 2>>, <<<<2, 1>>, 4>>, <<<<1, 1>>, 2>>, <<<<-3, 1>>, 0>>>>}
Inverse == [n \in {2, -4} |-> Q(1, n)]
OK(p) == Small(p, MaxDeg, 500, 32)

H(r) == hist' = Append(hist, r)
Bind(d, p, r) == /\ OK(p) /\ heap' = Append(heap, p) /\ ref' = [ref EXCEPT ![d] = Len(heap) + 1] /\ H(r)
Put(a, p, r) == /\ OK(p) /\ heap' = [heap EXCEPT ![ref[a]] = p] /\ UNCHANGED ref /\ H(r)

Binary == \E d \in Vars, a \in Vars, b \in Vars :
  \/ Bind(d, PAdd(Val(a), Val(b)), [op |-> "add", d |-> d, a |-> a, b |-> b])
  \/ Bind(d, PSub(Val(a), Val(b)), [op |-> "sub", d |-> d, a |-> a, b |-> b])
  \/ Bind(d, PMul(Val(a), Val(b)), [op |-> "mul", d |-> d, a |-> a, b |-> b])
Scalar == \E d \in Vars, a \in Vars, c \in Consts :
  \/ Bind(d, PAdd(Val(a), PConst(c)), [op |-> "adds", d |-> d, a |-> a, c |-> c])
  \/ Bind(d, PAdd(Val(a), PConst(c)), [op |-> "radds", d |-> d, a |-> a, c |-> c])
  \/ Bind(d, PSub(Val(a), PConst(c)), [op |-> "subs", d |-> d, a |-> a, c |-> c])
  \/ Bind(d, PSub(PConst(c), Val(a)), [op |-> "rsubs", d |-> d, a |-> a, c |-> c])
  \/ Bind(d, PScale(c, Val(a)), [op |-> "muls", d |-> d, a |-> a, c |-> c])
  \/ Bind(d, PScale(c, Val(a)), [op |-> "rmuls", d |-> d, a |-> a, c |-> c])
Unary == \E d \in Vars, a \in Vars :
  \/ \E n \in DOMAIN Inverse : Bind(d, PScale(Inverse[n], Val(a)), [op |-> "divs", d |-> d, a |-> a, c |-> QInt(n)])
  \/ Bind(d, PNeg(Val(a)), [op |-> "neg", d |-> d, a |-> a])
  \/ \E k \in 0..3 : Deg(Val(a)) * k <= MaxDeg /\ (k < 2 \/ Small(Val(a), 3, 30, 8)) /\
       \E o \in {"pow", "**"} : Bind(d, PPow(Val(a), k), [op |-> o, d |-> d, a |-> a, k |-> k])
  \/ Bind(d, Val(a), [op |-> "copy", d |-> d, a |-> a])
  \/ /\ d # a /\ ref[d] # ref[a] /\ ref' = [ref EXCEPT ![d] = ref[a]] /\ UNCHANGED heap
     /\ H([op |-> "alias", d |-> d, a |-> a])
\* in place: the object of variable a changes
InPlace == \E a \in Vars :
  \/ \E b \in Vars :
       \/ Put(a, PAdd(Val(a), Val(b)), [op |-> "iadd", a |-> a, b |-> b])
       \/ Put(a, PAdd(Val(a), Val(b)), [op |-> "addmonos", a |-> a, b |-> b])
  \/ \E c \in Consts : Put(a, PAdd(Val(a), PConst(c)), [op |-> "iadds", a |-> a, c |-> c])
  \/ \E l \in Lists : Put(a, PList(l), [op |-> "set", a |-> a, l |-> l])
  \/ \E c \in Consts, k \in {0, 2, 4} :
       Put(a, PAdd(Val(a), Term(c, FromIdx(k)[1], FromIdx(k)[2])), [op |-> "addidx", a |-> a, c |-> c, k |-> k])
  \/ \E l \in IdxLists : Put(a, PAdd(Val(a), PList([i \in 1..Len(l) |->
        <<l[i][1], FromIdx(l[i][2])[1], FromIdx(l[i][2])[2]>>])), [op |-> "addidxs", a |-> a, l |-> l])
  \/ Put(a, PZero, [op |-> "zero", a |-> a])
\* augmented assignments that make a new object
Rebind == \E a \in Vars :
  \/ \E b \in Vars :
       \/ Bind(a, PSub(Val(a), Val(b)), [op |-> "isub", a |-> a, b |-> b])
       \/ Bind(a, PMul(Val(a), Val(b)), [op |-> "imul", a |-> a, b |-> b])
  \/ \E c \in Consts : Bind(a, PScale(c, Val(a)), [op |-> "imuls", a |-> a, c |-> c])

Init == /\ \E i \in 1..Len(Seeds) : heap = [k \in Vars |-> PList(Seeds[i][k])]
        /\ ref = [v \in Vars |-> v]
        /\ hist = <<[op |-> "start", p |-> [k \in Vars |-> Terms(heap[k])]]>>
Next == /\ Len(hist) <= MaxLen
        /\ (Binary \/ Scalar \/ Unary \/ InPlace \/ Rebind)
Spec == Init /\ [][Next]_vars

\* ---- the specification itself obeys the ring laws, in canonical form ----
RingLaws ==
  LET p == Val(1) q == Val(2) r == Val(3) IN
  /\ \A i \in 1..Len(heap) : \A m \in DOMAIN heap[i] : heap[i][m][1] # 0
  /\ PAdd(p, q) = PAdd(q, p)
  /\ PAdd(p, PNeg(p)) = PZero /\ PSub(p, q) = PNeg(PSub(q, p))
  /\ (Deg(p) + Deg(q) + Deg(r) <= 6 /\ Small(p, 9, 64, 4) /\ Small(q, 9, 64, 4) /\ Small(r, 9, 64, 4)) =>
       /\ PMul(p, q) = PMul(q, p)
       /\ PMul(p, PAdd(q, r)) = PAdd(PMul(p, q), PMul(p, r))
       /\ PMul(PMul(p, q), r) = PMul(p, PMul(q, r))
IdxBijection == \A k \in 0..60 : LET m == FromIdx(k) IN Idx(m[1], m[2]) = k

Emit == (EmitAll \/ Len(hist) = MaxLen + 1) => PrintT("@@" \o ToJson(
  [hist |-> hist, now |-> [v \in Vars |-> Terms(Val(v))], ref |-> ref,
   eq |-> [v \in Vars |-> [w \in Vars |-> Val(v) = Val(w)]],
   at |-> [v \in Vars |-> IF Small(Val(v), 6, 1000, 64) THEN <<Eval(Val(v), QInt(2), QInt(-1))>> ELSE <<>>]]))
=============================================================================
