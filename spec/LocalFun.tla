------------------------------ MODULE LocalFun ------------------------------
(* C14, C15, C16: functions on a cell with holes: a polynomial plus a        *)
(* multiple of log |x - xi_k| for a point xi_k in each hole k.               *)
EXTENDS Poly, CellInt, Json

CONSTANTS Kinds, Holes, TopDegree, Mixes, Shapes, Monos
\* Holes: set of hole numbers; TopDegree: of the monomials; Mixes: seeds

VARIABLE what
vars == <<what>>

\* ---- functions ----
NoLogs(h) == [k \in 1..h |-> QZero]
F(p, l) == [p |-> p, l |-> l]
FAdd(f, g) == F(PAdd(f.p, g.p), [k \in 1..Len(f.l) |-> QAdd(f.l[k], g.l[k])])
FScale(c, f) == F(PScale(c, f.p), [k \in 1..Len(f.l) |-> QMul(c, f.l[k])])
FLap(f) == Lap(f.p)                    \* the logarithms are harmonic
LogFun(h, k) == F(PZero, [NoLogs(h) EXCEPT ![k] = QOne])
RECURSIVE FSum(_, _)
FSum(s, h) == IF s = <<>> THEN F(PZero, NoLogs(h)) ELSE FAdd(Head(s), FSum(Tail(s), h))

\* ---- harmonic polynomials: real and imaginary parts of z^k ----
X == Term(QOne, 1, 0)
Y == Term(QOne, 0, 1)
RECURSIVE Re(_), Im(_)
Re(k) == IF k = 0 THEN PConst(QOne) ELSE PSub(PMul(X, Re(k - 1)), PMul(Y, Im(k - 1)))
Im(k) == IF k = 0 THEN PZero ELSE PAdd(PMul(X, Im(k - 1)), PMul(Y, Re(k - 1)))

\* harmonic functions with their conjugates, up to a constant; the
\* conjugate is that of the part without logarithms
HG(u, v, l) == [u |-> u, v |-> v, l |-> l]
HAdd(f, g) == HG(PAdd(f.u, g.u), PAdd(f.v, g.v), [k \in 1..Len(f.l) |-> QAdd(f.l[k], g.l[k])])
HScale(c, f) == HG(PScale(c, f.u), PScale(c, f.v), [k \in 1..Len(f.l) |-> QMul(c, f.l[k])])
RECURSIVE HSum(_, _)
HSum(s, h) == IF s = <<>> THEN HG(PZero, PZero, NoLogs(h)) ELSE HAdd(Head(s), HSum(Tail(s), h))
HarmGens(h) == <<HG(Re(0), PZero, NoLogs(h))>>
  \o [k \in 1..4 |-> HG(Re(k), Im(k), NoLogs(h))]
  \o [k \in 1..4 |-> HG(Im(k), PNeg(Re(k)), NoLogs(h))]
  \o [k \in 1..h |-> HG(PZero, PZero, [NoLogs(h) EXCEPT ![k] = QOne])]
Weight(s, k) == Q(((s * k * k + 2 * k + s) % 7) - 3, 2)
HarmFuns(h) == LET B == HarmGens(h) IN
  B \o [s \in 1..Mixes |-> HSum([k \in 1..Len(B) |-> HScale(Weight(s, k), B[k])], h)]
MixOf(h, n) == [k \in 1..n |-> Weight(n, k)]

\* flux through a contour over 2 pi: the outer contour, then the holes
Fluxes(l) == <<QSumSeq(l)>> \o [k \in 1..Len(l) |-> QNeg(l[k])]

\* ---- all functions for Poisson problems ----
MonoList == LET D == ((TopDegree + 1) * (TopDegree + 2)) \div 2
            IN [k \in 1..D |-> FromIdx(k - 1)]
Gens(h) == [k \in 1..Len(MonoList) |-> F(Term(QOne, MonoList[k][1], MonoList[k][2]), NoLogs(h))]
  \o [k \in 1..h |-> LogFun(h, k)]
Funs(h) == LET B == Gens(h) IN
  B \o [s \in 1..Mixes |-> FSum([k \in 1..Len(B) |-> FScale(Weight(s, k), B[k])], h)]
    \o <<F(Re(4), NoLogs(h))>>

\* evaluated once
HarmLen(h) == 9 + h
HarmTable == [h \in Holes |-> HarmFuns(h)]
FunTable == [h \in Holes |-> Funs(h)]

\* ---- inner products, expanded over monomials and logarithms ----
\* a cross term <<c, i, j, k>>: c times the product of x^i y^j with log k
Cross(p, l) == LET t == Terms(p) n == Len(l) m == Len(t) IN
  [q \in 1..(n * m) |-> LET a == t[((q - 1) \div n) + 1] k == ((q - 1) % n) + 1
                        IN <<QMul(a[1], l[k]), a[2], a[3], k>>]
Logs2(l, m) == [q \in 1..(Len(l) * Len(l)) |->
  LET i == ((q - 1) \div Len(l)) + 1 j == ((q - 1) % Len(l)) + 1 IN <<QMul(l[i], m[j]), i, j>>]
L2(f, g) == [pp |-> PMul(f.p, g.p), pl |-> Cross(f.p, g.l) \o Cross(g.p, f.l), ll |-> Logs2(f.l, g.l)]
H1(f, g) == [pp |-> PAdd(PMul(DX(f.p), DX(g.p)), PMul(DY(f.p), DY(g.p))),
             pl |-> Cross(f.p, g.l) \o Cross(g.p, f.l), ll |-> Logs2(f.l, g.l)]

\* ---- what is known of a local function after a history of requests ----
\* built with flags <<values, gradients>>, then asked again
RECURSIVE Known(_)
Known(s) == LET r == s[Len(s)] IN
  IF r.op = "new" THEN IF r.v \/ r.g THEN [v |-> TRUE, g |-> r.g] ELSE [v |-> FALSE, g |-> FALSE]
  ELSE [v |-> TRUE, g |-> r.g]
Requests == {<<[op |-> "new", v |-> v, g |-> g]>> : v \in BOOLEAN, g \in BOOLEAN}
Again == {<<>>} \cup {<<[op |-> "ask", g |-> g]>> : g \in BOOLEAN}
         \cup {<<[op |-> "ask", g |-> a], [op |-> "ask", g |-> b]>> : a \in BOOLEAN, b \in BOOLEAN}

Init == what \in
  (IF "harm" \in Kinds THEN {[kind |-> "harm", h |-> h, i |-> i] : h \in Holes, i \in 1..20} ELSE {})
  \cup (IF "fun" \in Kinds THEN {[kind |-> "fun", h |-> h, i |-> i] : h \in Holes, i \in 1..40} ELSE {})
  \cup (IF "pair" \in Kinds THEN {x \in {[kind |-> "pair", h |-> h, i |-> i, j |-> j] : h \in Holes, i \in 1..40, j \in 1..40} : x.i <= x.j} ELSE {})
  \cup (IF "mono" \in Kinds THEN {[kind |-> "mono", s |-> s, m |-> m] : s \in 1..Len(Shapes), m \in 1..Len(Monos)} ELSE {})
  \cup (IF "known" \in Kinds THEN {[kind |-> "known", r |-> a \o b] : a \in Requests, b \in Again} ELSE {})
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* initial states beyond the lists are no cases
Valid == CASE what.kind = "harm" -> what.i <= Len(HarmTable[what.h])
           [] what.kind = "fun" -> what.i <= Len(FunTable[what.h])
           [] what.kind = "pair" -> what.i <= Len(FunTable[what.h]) /\ what.j <= Len(FunTable[what.h])
           [] OTHER -> TRUE
Ser(x) == [pp |-> Terms(x.pp), pl |-> x.pl, ll |-> x.ll]
Record == CASE what.kind = "harm" -> LET f == HarmTable[what.h][what.i] IN
                 [kind |-> "harm", h |-> what.h, i |-> what.i, p |-> Terms(f.u), q |-> Terms(f.v), l |-> f.l,
                  flux |-> Fluxes(f.l), gens |-> HarmLen(what.h),
                  mix |-> IF what.i > HarmLen(what.h)
                          THEN [k \in 1..HarmLen(what.h) |-> Weight(what.i - HarmLen(what.h), k)] ELSE <<>>]
            [] what.kind = "fun" -> LET f == FunTable[what.h][what.i] IN
                 [kind |-> "fun", h |-> what.h, i |-> what.i, p |-> Terms(f.p), l |-> f.l, lap |-> Terms(FLap(f)),
                  dx |-> Terms(DX(f.p)), dy |-> Terms(DY(f.p))]
            [] what.kind = "pair" -> LET f == FunTable[what.h][what.i] g == FunTable[what.h][what.j] IN
                 [kind |-> "pair", h |-> what.h, i |-> what.i, j |-> what.j, l2 |-> Ser(L2(f, g)), h1 |-> Ser(H1(f, g))]
            [] what.kind = "known" -> [kind |-> "known", r |-> what.r, want |-> Known(what.r)]
            [] OTHER -> [kind |-> "mono", id |-> Shapes[what.s].id, a |-> Monos[what.m][1], b |-> Monos[what.m][2],
                         v |-> CellIntegral(Shapes[what.s].cell, Monos[what.m][1], Monos[what.m][2])]
Emit == Valid => PrintT("@@" \o ToJson(Record))

\* ---- laws of the specification ----
Laws == Valid =>
  CASE what.kind = "harm" -> LET f == HarmTable[what.h][what.i] IN
         /\ Lap(f.u) = PZero /\ Lap(f.v) = PZero
         /\ DX(f.u) = DY(f.v) /\ DY(f.u) = PNeg(DX(f.v))
         /\ QSumSeq(Fluxes(f.l)) = QZero
    [] what.kind = "pair" -> LET f == FunTable[what.h][what.i] g == FunTable[what.h][what.j] s == FAdd(f, g) IN
         /\ L2(f, g).pp = L2(g, f).pp /\ H1(f, g).pp = H1(g, f).pp
         \* the square of a sum
         /\ what.i <= 12 /\ what.j <= 12 =>
              /\ L2(s, s).pp = PAdd(L2(f, f).pp, PAdd(PScale(<<2, 1>>, L2(f, g).pp), L2(g, g).pp))
              /\ H1(s, s).pp = PAdd(H1(f, f).pp, PAdd(PScale(<<2, 1>>, H1(f, g).pp), H1(g, g).pp))
         \* constants have no energy; Lap (p q) = p Lap q + 2 grad p . grad q + q Lap p
         /\ Deg(f.p) = 0 /\ f.l = NoLogs(what.h) => H1(f, g).pp = PZero
         /\ Lap(PMul(f.p, g.p)) = PAdd(PMul(f.p, Lap(g.p)), PAdd(PScale(<<2, 1>>, H1(f, g).pp), PMul(g.p, Lap(f.p))))
    [] OTHER -> TRUE
=============================================================================
