-------------------------------- MODULE Poly --------------------------------
(* Bivariate polynomials with rational coefficients: a function from the     *)
(* multi-indices of the terms to nonzero rationals.                          *)
EXTENDS Rat, FiniteSets, TLC

PZero == [m \in {} |-> QZero]              \* no terms
\* canonical form of a function from multi-indices to rationals
PNorm(f) == LET S == {m \in DOMAIN f : f[m][1] # 0} IN [m \in S |-> f[m]]
Coef(p, m) == IF m \in DOMAIN p THEN p[m] ELSE QZero
Term(c, i, j) == PNorm([m \in {<<i, j>>} |-> c])
PConst(c) == Term(c, 0, 0)
PAdd(p, q) == PNorm([m \in DOMAIN p \cup DOMAIN q |-> QAdd(Coef(p, m), Coef(q, m))])
PScale(c, p) == PNorm([m \in DOMAIN p |-> QMul(c, p[m])])
PNeg(p) == PScale(<<-1, 1>>, p)
PSub(p, q) == PAdd(p, PNeg(q))
RECURSIVE PSumF(_, _)     \* the sum of f[x] over x \in S
PSumF(f, S) == IF S = {} THEN PZero
  ELSE LET x == CHOOSE x \in S : TRUE IN PAdd(f[x], PSumF(f, S \ {x}))
PShift(c, a, p) == PNorm([m \in {<<k[1] + a[1], k[2] + a[2]>> : k \in DOMAIN p} |->
                     QMul(c, p[<<m[1] - a[1], m[2] - a[2]>>])])
PMul(p, q) == PSumF([m \in DOMAIN p |-> PShift(p[m], m, q)], DOMAIN p)
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN PConst(QOne) ELSE PMul(p, PPow(p, k - 1))

\* sum of a list of terms <<coef, i, j>>, repeats and zeros allowed
RECURSIVE PList(_)
PList(s) == IF s = <<>> THEN PZero
            ELSE PAdd(Term(Head(s)[1], Head(s)[2], Head(s)[3]), PList(Tail(s)))

\* ---- numbering of multi-indices: by order, then by the second exponent ----
Idx(i, j) == j + ((i + j) * (i + j + 1)) \div 2
RECURSIVE OrderOf(_, _)
OrderOf(k, n) == IF ((n + 1) * (n + 2)) \div 2 > k THEN n ELSE OrderOf(k, n + 1)
FromIdx(k) == LET n == OrderOf(k, 0) j == k - (n * (n + 1)) \div 2 IN <<n - j, j>>

RECURSIVE SortMI(_)
SortMI(S) == IF S = {} THEN <<>>
  ELSE LET m == CHOOSE m \in S : \A k \in S : Idx(m[1], m[2]) <= Idx(k[1], k[2])
       IN <<m>> \o SortMI(S \ {m})
\* the canonical list of terms
Terms(p) == LET s == SortMI(DOMAIN p) IN [k \in 1..Len(s) |-> <<p[s[k]], s[k][1], s[k][2]>>]

Deg(p) == IF DOMAIN p = {} THEN 0
          ELSE CHOOSE d \in {m[1] + m[2] : m \in DOMAIN p} : \A m \in DOMAIN p : m[1] + m[2] <= d
Small(p, deg, num, den) == Deg(p) <= deg /\ \A m \in DOMAIN p : Abs(p[m][1]) <= num /\ p[m][2] <= den

\* ---- calculus ----
DX(p) == PNorm([m \in {<<k[1] - 1, k[2]>> : k \in {k \in DOMAIN p : k[1] > 0}} |->
           QMul(QInt(m[1] + 1), p[<<m[1] + 1, m[2]>>])])
DY(p) == PNorm([m \in {<<k[1], k[2] - 1>> : k \in {k \in DOMAIN p : k[2] > 0}} |->
           QMul(QInt(m[2] + 1), p[<<m[1], m[2] + 1>>])])
Lap(p) == PAdd(DX(DX(p)), DY(DY(p)))
Compose(p, q1, q2) == PSumF([m \in DOMAIN p |->
                        PScale(p[m], PMul(PPow(q1, m[1]), PPow(q2, m[2])))], DOMAIN p)
RECURSIVE QSumF(_, _)
QSumF(f, S) == IF S = {} THEN QZero
  ELSE LET x == CHOOSE x \in S : TRUE IN QAdd(f[x], QSumF(f, S \ {x}))
Eval(p, x, y) == QSumF([m \in DOMAIN p |-> QMul(p[m], QMul(QPow(x, m[1]), QPow(y, m[2])))], DOMAIN p)
=============================================================================
