----------------------------- MODULE Quadrature -----------------------------
(* C09: quadrature rules on [0, 2 pi].  Node j of a rule with parameter n    *)
(* has the grid abscissa s = j / n - 1; the Kress rule moves it to           *)
(*    u(s) = c^p / (c^p + (1 - c)^p),  c(s) = (1/2 - 1/p) s^3 + s/p + 1/2    *)
(* (as a fraction of the interval) and its weight is du/d(s/2).              *)
EXTENDS CellInt, Json

CONSTANTS Ns, Ps, Ks, Shapes, Monos

VARIABLE what
vars == <<what>>

S(n, j) == QSub(Q(j, n), QOne)
C(p, s) == QAdd(QAdd(QMul(Q(p - 2, 2 * p), QPow(s, 3)), QMul(<<1, p>>, s)), <<1, 2>>)
DC(p, s) == QAdd(QMul(Q(3 * (p - 2), 2 * p), QMul(s, s)), <<1, p>>)

\* the weight without its power of c: 2 p dc/ds
W(p, s) == QMul(QInt(2 * p), DC(p, s))

Rule(n, p) == [kind |-> "kress", n |-> n, p |-> p,
  c |-> [j \in 1..(2 * n + 1) |-> C(p, S(n, j - 1))],
  w |-> [j \in 1..(2 * n + 1) |-> W(p, S(n, j - 1))]]
\* sums over one period of cos(k t) at the 2n equispaced nodes, over 2n
Alias(n, k) == IF k % (2 * n) = 0 THEN 1 ELSE 0

\* the trapezoid rule over an open edge: both end points count one half.
\* Mean over [0, 1] of u^k by the rule with 2n intervals
RECURSIVE TrapSum(_, _, _)
TrapSum(n, k, j) ==
  IF j > 2 * n THEN QZero
  ELSE QAdd(QMul(IF j = 0 \/ j = 2 * n THEN <<1, 2>> ELSE QOne, QPow(Q(j, 2 * n), k)),
            TrapSum(n, k, j + 1))
Open(n, k) == QMul(Q(1, 2 * n), TrapSum(n, k, 0))

\* the inadmissible requests
Bad == {"n=3", "n=0", "n=-4", "n=8.0", "n='8'", "n=None", "p=1", "p=0", "p=-3"}

Init == what \in {[kind |-> "kress", n |-> n, p |-> p] : n \in Ns, p \in Ps}
             \cup {[kind |-> "alias", n |-> n, k |-> k] : n \in Ns, k \in Ks}
             \cup {[kind |-> "mart", n |-> n] : n \in Ns}
             \cup {[kind |-> "open", n |-> n, k |-> k] : n \in Ns \cap 4..16, k \in 0..2}
             \cup {[kind |-> "bad", b |-> b] : b \in Bad}
             \cup {[kind |-> "edge", shape |-> s, m |-> m] : s \in 1..Len(Shapes), m \in 1..Len(Monos)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ---- the node map is a bijection of the interval fixing ends and midpoint,
\* ---- symmetric, and dc/ds is its derivative (Simpson is exact on cubics)
NodesOK == what.kind = "kress" =>
  LET n == what.n p == what.p c(j) == C(p, S(n, j)) IN
  /\ c(0) = QZero /\ c(n) = <<1, 2>> /\ c(2 * n) = QOne
  /\ \A j \in 0..(2 * n) : QAdd(c(j), c(2 * n - j)) = QOne
  /\ \A j \in 0..(2 * n - 1) : QLt(c(j), c(j + 1))
  /\ \A j \in 0..(2 * n) : QLt(QZero, W(p, S(n, j))) /\ W(p, S(n, j)) = W(p, S(n, 2 * n - j))
  /\ \A j \in 0..(2 * n - 1) :
       QSub(c(j + 1), c(j)) = QMul(Q(1, 6 * n),
         QSumSeq(<<DC(p, S(n, j)), QMul(QInt(4), DC(p, QAdd(S(n, j), Q(1, 2 * n)))), DC(p, S(n, j + 1))>>))

\* it is exact for affine integrands
OpenOK == what.kind = "open" =>
  /\ what.k < 2 => Open(what.n, what.k) = Q(1, what.k + 1)
  /\ what.k = 2 => Open(what.n, 2) = QAdd(<<1, 3>>, Q(1, 24 * what.n * what.n))

Cellof == Shapes[what.shape]
M == Monos[what.m]
Emit == PrintT("@@" \o ToJson(
  CASE what.kind = "kress" -> Rule(what.n, what.p)
    [] what.kind = "alias" -> what @@ [v |-> Alias(what.n, what.k)]
    [] what.kind = "open" -> what @@ [v |-> Open(what.n, what.k)]
    [] what.kind = "edge" -> [kind |-> "edge", id |-> Cellof.id, a |-> M[1], b |-> M[2],
         parts |-> [k \in 1..Len(Cellof.cell) |-> ArcParts(Cellof.cell[k], M[1], M[2])]]
    [] OTHER -> what))
=============================================================================
