------------------------------ MODULE EdgeDim ------------------------------
(* C18: how many independent polynomials of degree p there are on a curve.  *)
(* An irreducible curve of degree d kills exactly its multiples, so that     *)
(* the dimension is (p+2 choose 2) - (p-d+2 choose 2); the model confirms    *)
(* this by the rank of the evaluation at rational points of such curves,     *)
(* modulo a prime (a lower bound of the rank over the rationals, while the   *)
(* multiples of the curve make the formula an upper bound).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Prime, MaxDeg, Count
VARIABLES curve, deg, loop
vars == <<curve, deg, loop>>

Curves == {"line", "conic", "quartic", "general"}
Init == /\ curve \in Curves /\ deg \in 1..MaxDeg /\ loop \in BOOLEAN
        /\ ~(loop /\ curve = "line")
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Choose2(n) == IF n < 2 THEN 0 ELSE (n * (n - 1)) \div 2
Degree(c) == CASE c = "line" -> 1 [] c = "conic" -> 2 [] c = "quartic" -> 4 [] OTHER -> 99
Dim(c, p) == Choose2(p + 2) - Choose2(p - Degree(c) + 2)

\* ---- arithmetic modulo Prime ----
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1
             ELSE LET h == Pow(a, n \div 2) s == (h * h) % Prime
                  IN IF n % 2 = 0 THEN s ELSE (s * a) % Prime
Inv(a) == Pow(a % Prime, Prime - 2)
Mul(a, b) == ((a % Prime) * (b % Prime)) % Prime

\* cos and sin of a rational point of the unit circle
Cos(s) == Mul(1 - s * s, Inv(1 + s * s))
Sin(s) == Mul(2 * s, Inv(1 + s * s))
Point(c, s) ==
  CASE c = "line" -> <<s % Prime, (3 * s + 5) % Prime>>
    [] c = "conic" -> <<Mul(3, Cos(s)), Mul(2, Sin(s))>>
    \* the bean: (cos t + 13/20 cos 2t, 3/2 sin t)
    [] c = "quartic" -> LET u == Cos(s) IN
         <<(u + Mul(Mul(13, Inv(20)), 2 * Mul(u, u) - 1)) % Prime, Mul(Mul(3, Inv(2)), Sin(s))>>
    [] OTHER -> <<s % Prime, Pow(s, 7)>>
\* the drop (2 sin u, - b sin 2u) is a quartic too
Drop(s) == <<Mul(2, Sin(s)), Mul(-2, Mul(Sin(s), Cos(s)))>>

Exps(p) == {<<i, j>> \in (0..p) \X (0..p) : i + j <= p}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Row(q, ex) == [k \in DOMAIN ex |-> Mul(Pow(q[1], ex[k][1]), Pow(q[2], ex[k][2]))]
RECURSIVE Rank(_)
Rank(rows) ==
  LET nz == {r \in rows : \E k \in DOMAIN r : r[k] # 0} IN
  IF nz = {} THEN 0
  ELSE LET piv == CHOOSE r \in nz : TRUE
           col == CHOOSE k \in DOMAIN piv : piv[k] # 0 /\ \A l \in 1..(k - 1) : piv[l] = 0
           f == Inv(piv[col])
       IN 1 + Rank({[k \in DOMAIN r |-> (r[k] - Mul(Mul(r[col], f), piv[k])) % Prime] : r \in nz \ {piv}})
RankAt(pts, p) == LET ex == SetToSeq(Exps(p)) IN Rank({Row(q, ex) : q \in pts})

\* the formula is the rank
DimOK == RankAt({Point(curve, s) : s \in 1..Count}, deg) = Dim(curve, deg)
DropOK == curve = "quartic" => RankAt({Drop(s) : s \in 1..Count}, deg) = Dim("quartic", deg)
\* two different points are told apart, so a space of dimension D splits into
\* one function per end and D - 2 that vanish at both
NumVert == IF loop THEN 0 ELSE 2
EndsOK == ~loop => RankAt({Point(curve, 1), Point(curve, 2)}, deg) = 2
Emit == PrintT("@@" \o ToJson([curve |-> curve, deg |-> deg, loop |-> loop, dim |-> Dim(curve, deg),
                                 vert |-> NumVert, edge |-> Dim(curve, deg) - NumVert]))
=============================================================================
