------------------------------ MODULE Fourier ------------------------------
(* C14: derivatives and antiderivatives along the boundary.  A function on a *)
(* contour of E edges is a trigonometric polynomial in s = t / E, where t    *)
(* runs through an interval of length 2 pi E: the sum of                     *)
(*    a cos(k s) + b sin(k s)   over modes [k, a, b].                        *)
EXTENDS Rat, TLC, Json, FiniteSets

CONSTANTS Layouts, Depth, EmitAll
\* a layout is a sequence of contours [e |-> number of edges (rational),
\* n |-> number of samples]
VARIABLES lay, f0, f, hist
vars == <<lay, f0, f, hist>>

Limit(n) == (n - 1) \div 2             \* the highest mode below the limit
Modes(n) == {k \in {0, 1, 2, 5, Limit(n)} : k <= Limit(n)}
\* a function on one contour: mode -> <<a, b>>
Fn(n, g(_)) == [k \in Modes(n) |-> IF k = 0 THEN <<g(0)[1], QZero>> ELSE g(k)]
Seed(s, n) == LET g(k) == CASE s = "one" -> (IF k = 0 THEN <<QOne, QZero>> ELSE <<QZero, QZero>>)
                            [] s = "cos" -> (IF k = 1 THEN <<QOne, QZero>> ELSE <<QZero, QZero>>)
                            [] s = "sin" -> (IF k = 2 THEN <<QZero, QOne>> ELSE <<QZero, QZero>>)
                            [] s = "top" -> (IF k = Limit(n) THEN <<<<1, 2>>, <<-1, 1>>>> ELSE <<QZero, QZero>>)
                            [] OTHER -> <<Q((k % 3) - 1, 2), Q(2 - (k % 4), 3)>>
              IN Fn(n, g)
SeedList == <<"one", "cos", "top", "sin", "mix">>
Add(u, v) == [k \in DOMAIN u |-> <<QAdd(u[k][1], v[k][1]), QAdd(u[k][2], v[k][2])>>]
Scale(c, u) == [k \in DOMAIN u |-> <<QMul(c, u[k][1]), QMul(c, u[k][2])>>]
Deriv(e, u) == [k \in DOMAIN u |-> LET w == QDiv(QInt(k), e) IN
                  <<QMul(w, u[k][2]), QNeg(QMul(w, u[k][1]))>>]
Anti(e, u) == [k \in DOMAIN u |-> IF k = 0 THEN <<QZero, QZero>> ELSE LET w == QDiv(e, QInt(k)) IN
                  <<QNeg(QMul(w, u[k][2])), QMul(w, u[k][1])>>]
Mean(u) == u[0][1]
Centered(u) == [u EXCEPT ![0] = <<QZero, QZero>>]

On(g(_, _)) == [c \in 1..Len(lay) |-> g(lay[c].e, f[c])]
H(r) == hist' = Append(hist, r)
Init == /\ \E i \in 1..Len(Layouts) : lay = Layouts[i]
        /\ \E i \in 1..5 : f0 = [c \in 1..Len(lay) |-> SeedList[((i + 2 * c) % 5) + 1]]
        /\ f = [c \in 1..Len(lay) |-> Seed(f0[c], lay[c].n)] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ f' = On(Deriv) /\ H([op |-> "d"])
           \/ f' = On(Anti) /\ H([op |-> "a"])
           \/ \E s \in {"cos", "mix", "one"} :
                /\ f' = [c \in 1..Len(lay) |-> Add(f[c], Seed(s, lay[c].n))] /\ H([op |-> "add", s |-> s])
           \/ \E c \in {<<-3, 1>>, <<1, 2>>, QZero} :
                /\ f' = [k \in 1..Len(lay) |-> Scale(c, f[k])] /\ H([op |-> "scale", c |-> c])
        /\ UNCHANGED <<lay, f0>>
Spec == Init /\ [][Next]_vars

List(u) == {[k |-> k, a |-> u[k][1], b |-> u[k][2]] : k \in DOMAIN u}
Emit == (EmitAll \/ Len(hist) = Depth) => PrintT("@@" \o ToJson(
  [lay |-> lay, f0 |-> [c \in 1..Len(lay) |-> List(Seed(f0[c], lay[c].n))], hist |-> hist,
   seeds |-> [s \in {"cos", "mix", "one"} |-> [c \in 1..Len(lay) |-> List(Seed(s, lay[c].n))]],
   f |-> [c \in 1..Len(lay) |-> List(f[c])]]))

\* ---- the two maps undo each other up to a constant, and kill constants ----
Laws == \A c \in 1..Len(lay) : LET e == lay[c].e u == f[c] v == Seed("mix", lay[c].n) IN
  /\ Deriv(e, Anti(e, u)) = Centered(u) /\ Anti(e, Deriv(e, u)) = Centered(u)
  /\ Mean(Deriv(e, u)) = QZero /\ Mean(Anti(e, u)) = QZero
  /\ Deriv(e, Add(u, Scale(<<-3, 1>>, v))) = Add(Deriv(e, u), Scale(<<-3, 1>>, Deriv(e, v)))
  /\ \A k \in DOMAIN u : k # 0 =>
       Deriv(e, Deriv(e, u))[k] = Scale(QNeg(QMul(QDiv(QInt(k), e), QDiv(QInt(k), e))), u)[k]
=============================================================================
