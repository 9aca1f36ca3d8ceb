------------------------------- MODULE Curves -------------------------------
(* C28: the library of named curves.  A request names a curve, gives some of *)
(* its parameters, a part of the parameter interval (in eighths of a turn),  *)
(* and a rule; it is granted, and then the edge passes through the landmarks *)
(* listed here at the stated times, in the stated directions, or refused.    *)
(* Coordinates are sums r + s*sqrt(q) with rational r, q and sign s.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxPast,  \* edges made before the last one
          Parts,    \* parts <<a, b>> of the interval, in eighths of 2*pi
          Places    \* similarities z -> m z + c given as <<mx, my, cx, cy>>

VARIABLES req, out, stage, past
vars == <<req, out, stage, past>>

Q(p, d) == <<p, d>>                      \* the fraction p/d, d > 0
Z(n) == <<n, 1>>
QAdd(x, y) == <<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>
QNeg(x) == <<-x[1], x[2]>>
QMul(x, y) == <<x[1] * y[1], x[2] * y[2]>>
Num(r) == [r |-> r, s |-> 0, q |-> Z(0)]         \* a rational
Root(s, q) == [r |-> Z(0), s |-> s, q |-> q]      \* s * sqrt(q)
NumNeg(x) == [r |-> QNeg(x.r), s |-> -x.s, q |-> x.q]
Scale(a, x) == [r |-> QMul(a, x.r), s |-> IF a[1] < 0 THEN -x.s ELSE IF a[1] = 0 THEN 0 ELSE x.s, q |-> QMul(QMul(a, a), x.q)]

\* cosine and sine of whole multiples of 15 degrees that are single roots
KnownDeg(d) == d % 30 = 0 \/ d % 45 = 0
CosSq(d) == LET e == d % 180 IN
  CASE e = 0 -> Z(1) [] e \in {30, 150} -> Q(3, 4) [] e \in {45, 135} -> Q(1, 2) [] e \in {60, 120} -> Q(1, 4) [] e = 90 -> Z(0)
CosSgn(d) == LET e == d % 360 IN IF e \in {90, 270} THEN 0 ELSE IF e < 90 \/ e > 270 THEN 1 ELSE -1
Cos(d) == Root(CosSgn(d), CosSq(d))
Sin(d) == Cos(d - 90)

\* a landmark: time in eighths of the full interval, point, direction or none
L(t, x, y, d) == [t |-> t, x |-> x, y |-> y, dir |-> d]
Free == <<>>
Quarter == {0, 2, 4, 6, 8}

Given(o, k) == k \in DOMAIN o
Val(o, k, default) == IF k \in DOMAIN o THEN o[k] ELSE default

\* ---- each curve: the options it may be given, when it is granted, landmarks
Circle(R) == {L(k, Scale(R, Cos(45 * k)), Scale(R, Sin(45 * k)), <<NumNeg(Sin(45 * k)), Cos(45 * k)>>) : k \in 0..8}
Ellipse(a, b) == {L(k, Scale(a, Cos(45 * k)), Scale(b, Sin(45 * k)),
                    <<NumNeg(Scale(a, Sin(45 * k))), Scale(b, Cos(45 * k))>>) : k \in 0..8}
Line == {L(k, Num(Q(k, 8)), Num(Z(0)), <<Num(Z(1)), Num(Z(0))>>) : k \in 0..8}
BeanX(k) == CASE k \in {0, 8} -> Q(165, 100) [] k \in {2, 6} -> Q(-65, 100) [] k = 4 -> Q(-35, 100)
Bean == {L(k, Num(BeanX(k)), Scale(Q(3, 2), Sin(45 * k)), <<NumNeg(Sin(45 * k)), Cos(45 * k)>>) : k \in Quarter}
CartR(a, k) == QAdd(Z(1), QMul(a, CASE k \in {0, 8} -> Z(1) [] k \in {2, 6} -> Q(1, 256) [] k = 4 -> Z(0)))
Cartioid(a) == {L(k, Scale(CartR(a, k), Cos(45 * k)), Scale(CartR(a, k), Sin(45 * k)),
                  IF k = 4 THEN <<Num(Z(0)), Num(Z(-1))>> ELSE Free) : k \in Quarter}
TanSq(alpha) == CASE alpha = Q(3, 2) -> Z(3) [] alpha = Z(2) -> Z(1) [] alpha = Z(3) -> Q(1, 3)
Teardrop(alpha) ==
  LET b == Root(1, TanSq(alpha))  c(k) == [Scale(Z(1), b) EXCEPT !.s = -CosSgn(45 * k - 90)] IN
  {L(0, Num(Z(0)), Num(Z(0)), <<Num(Z(1)), NumNeg(b)>>), L(8, Num(Z(0)), Num(Z(0)), <<Num(Z(-1)), NumNeg(b)>>),
   L(4, Num(Z(2)), Num(Z(0)), <<Num(Z(0)), Num(Z(1))>>),
   L(2, Root(1, Z(2)), c(2), <<Num(Z(1)), Num(Z(0))>>), L(6, Root(1, Z(2)), c(6), <<Num(Z(-1)), Num(Z(0))>>)}
\* the wave is at k/8 of its length after a phase of freq * k * 22.5 degrees
SineAt(f, k) == (f[1] * k * 45) \div (2 * f[2])
Sine(a, f) == {L(k, Num(Q(k, 8)), Scale(a, Sin(SineAt(f, k))), IF CosSgn(SineAt(f, k)) = 0 \/ a[1] = 0 THEN <<Num(Z(1)), Num(Z(0))>> ELSE Free) :
                 k \in {j \in 0..8 : (f[1] * j) % (2 * f[2]) = 0 /\ KnownDeg(SineAt(f, j))}}
\* degrees of arc swept at k/8 of the interval
Arc(th) == {L(k, Cos((th * k) \div 8), Sin((th * k) \div 8), <<NumNeg(Sin((th * k) \div 8)), Cos((th * k) \div 8)>>) :
              k \in {j \in 0..8 : (th * j) % 8 = 0 /\ KnownDeg((th * j) \div 8)}}
\* the arc through 0 and 1 with centre (1/2, H); R given with H
Bow(H, R) == {L(0, Num(Z(0)), Num(Z(0)), <<Num(QNeg(H)), Num(Q(1, 2))>>), L(8, Num(Z(1)), Num(Z(0)), <<Num(QNeg(H)), Num(Q(-1, 2))>>),
              L(4, Num(Q(1, 2)), Num(QAdd(H, R)), <<Num(Z(1)), Num(Z(0))>>)}
\* points of the splines, chords along the axes with lengths in eighths of the whole
SplinePts == [stairs |-> <<<<0, 0, 0>>, <<2, 0, 2>>, <<2, 2, 4>>, <<4, 2, 6>>, <<4, 4, 8>>>>,
              uneven |-> <<<<0, 0, 0>>, <<3, 0, 3>>, <<3, 1, 4>>, <<5, 1, 6>>, <<5, -1, 8>>>>,
              mirror |-> <<<<0, 0, 0>>, <<0, 2, 2>>, <<2, 2, 4>>, <<2, 4, 6>>, <<4, 4, 8>>>>,
              back |-> <<<<1, 1, 0>>, <<1, 3, 2>>, <<-2, 3, 5>>, <<-2, 0, 8>>>>]
Spline(n) == {L(SplinePts[n][i][3], Num(Z(SplinePts[n][i][1])), Num(Z(SplinePts[n][i][2])), Free) : i \in DOMAIN SplinePts[n]}

OptSets == [
  line |-> {<<>>}, bean |-> {<<>>},
  circle |-> {<<>>} \cup {("radius" :> r) : r \in {Z(1), Z(2), Q(1, 2), Q(7, 4)}},
  ellipse |-> {<<>>, ("a" :> Z(2)), ("b" :> Z(2))} \cup {("a" :> a) @@ ("b" :> b) : a \in {Z(1), Z(3), Q(1, 2)}, b \in {Z(2), Q(3, 4)}},
  cartioid |-> {<<>>} \cup {("a" :> a) : a \in {Q(1, 2), Q(-1, 4), Z(1), Z(0), Z(-1)}},
  teardrop |-> {<<>>} \cup {("alpha" :> a) : a \in {Q(3, 2), Z(2), Z(3), Z(1), Q(1, 2), Z(-2), Z(0)}},
  sine_wave |-> {<<>>, ("amp" :> Q(1, 2)), ("freq" :> Z(1))} \cup
                {("amp" :> a) @@ ("freq" :> f) : a \in {Q(1, 4), Q(-1, 2), Z(0), Z(1)}, f \in {Z(1), Z(2), Z(3), Z(4), Q(1, 2), Q(3, 2)}},
  circular_arc_deg |-> {<<>>} \cup {("theta0" :> Z(d)) : d \in {-90, 0, 30, 45, 60, 90, 120, 180, 240, 270, 300, 360, 361, 720}},
  circular_arc |-> {<<>>} \cup {("H" :> h) : h \in {Z(0), Q(3, 8), Q(-3, 8), Q(6, 5), Q(-6, 5), Z(100)}},
  spline |-> {<<>>} \cup {("pts" :> p) : p \in DOMAIN SplinePts},
  nosuchcurve |-> {<<>>}]
Radius == [h \in {Z(0), Q(3, 8), Q(-3, 8), Q(6, 5), Q(-6, 5)} |->
             CASE h[2] = 1 -> Q(1, 2) [] h[2] = 8 -> Q(5, 8) [] OTHER -> Q(13, 10)]

Less(x, y) == x[1] * y[2] < y[1] * x[2]
Granted(c, o) ==
  CASE c \in {"line", "bean", "circle"} -> TRUE
    [] c = "ellipse" -> Given(o, "a") /\ Given(o, "b")
    [] c = "cartioid" -> Given(o, "a")
    [] c = "teardrop" -> Less(Z(1), Val(o, "alpha", Q(3, 2)))
    [] c = "sine_wave" -> Given(o, "amp") /\ Given(o, "freq")
    [] c = "circular_arc_deg" -> Given(o, "theta0") /\ Less(Z(0), o["theta0"]) /\ ~Less(Z(360), o["theta0"])
    [] c = "circular_arc" -> Given(o, "H")
    [] c = "spline" -> Given(o, "pts")
    [] OTHER -> FALSE
Marks(c, o) ==
  CASE c = "line" -> Line [] c = "bean" -> Bean
    [] c = "circle" -> Circle(Val(o, "radius", Z(1)))
    [] c = "ellipse" -> Ellipse(o["a"], o["b"])
    [] c = "cartioid" -> Cartioid(o["a"])
    [] c = "teardrop" -> Teardrop(Val(o, "alpha", Q(3, 2)))
    [] c = "sine_wave" -> Sine(o["amp"], o["freq"])
    [] c = "circular_arc_deg" -> Arc(o["theta0"][1])
    [] c = "circular_arc" -> IF o["H"] \in DOMAIN Radius THEN Bow(o["H"], Radius[o["H"]])
                             ELSE {m \in Bow(o["H"], Z(0)) : m.t # 4}
    [] c = "spline" -> Spline(o["pts"])
    [] OTHER -> {}
Rules == {"kress", "trap", "gauss"}
Curve == DOMAIN OptSets

\* only parts whose two ends are landmarks can be placed exactly
Times(c, o) == {m.t : m \in Marks(c, o)}
At(c, o, t) == CHOOSE m \in Marks(c, o) : m.t = t
Closed(c, o, p) == LET a == At(c, o, p[1])  b == At(c, o, p[2]) IN a.x = b.x /\ a.y = b.y
Requests(c) == {[curve |-> c, opts |-> [k \in DOMAIN o |-> o[k]], part |-> p, rule |-> r, place |-> pl] :
                  o \in OptSets[c], r \in Rules, p \in Parts, pl \in Places}
Proper(q) == IF Granted(q.curve, q.opts) /\ q.rule # "gauss" THEN {q.part[1], q.part[2]} \subseteq Times(q.curve, q.opts)
             ELSE q.part = <<0, 8>>
Outcome(q) ==
  LET ok == Granted(q.curve, q.opts) /\ q.rule # "gauss" IN
  [ok |-> ok, closed |-> ok /\ Closed(q.curve, q.opts, q.part),
   marks |-> IF ok THEN {m \in Marks(q.curve, q.opts) : m.t \in q.part[1]..q.part[2]} ELSE {}]
Nothing == [ok |-> FALSE, closed |-> FALSE, marks |-> {}]
Init == /\ stage = "asked" /\ out = Nothing /\ past = <<>>
        /\ \E c \in Curve : \E q \in Requests(c) : Proper(q) /\ req = q
Decide == /\ stage = "asked" /\ stage' = "decided" /\ UNCHANGED <<req, past>>
          /\ out' = Outcome(req)
\* another edge, mostly of the same type, or the first one sampled again
Again == /\ stage = "decided" /\ Len(past) < MaxPast
         /\ past' = Append(past, [req |-> req, out |-> out]) /\ stage' = "asked" /\ out' = Nothing
         /\ \/ \E q \in Requests(req.curve) : Proper(q) /\ req' = q
            \/ req' = past'[1].req
Next == Decide \/ Again
Spec == Init /\ [][Next]_vars

NoMemory == \A i \in DOMAIN past : stage = "decided" /\ past[i].req = req => past[i].out = out
\* every granted request is tied down at both ends; closed curves are closed only over the whole
Tied == stage = "decided" /\ out.ok => {req.part[1], req.part[2]} \subseteq {m.t : m \in out.marks}
ClosedWhole == stage = "decided" /\ out.closed => req.part = <<0, 8>> /\ req.curve \in {"circle", "ellipse", "bean", "cartioid", "teardrop", "circular_arc_deg"}
OneAtATime == stage = "decided" => \A m, k \in out.marks : m.t = k.t => m = k
Emit == stage = "decided" /\ Len(past) = MaxPast => PrintT("@@" \o ToJson([runs |-> Append(past, [req |-> req, out |-> out])]))
=============================================================================
