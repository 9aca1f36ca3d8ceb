---------------------------- MODULE Similarity ----------------------------
(* Plane similarities z |-> a * z + b  or  z |-> a * conj(z) + b, exactly.  *)
EXTENDS Rat

Sim(a, b, flip) == [a |-> a, b |-> b, flip |-> flip]
SimId == Sim(GOne, GZero, FALSE)
Apply(s, z) == GAdd(GMul(s.a, IF s.flip THEN GConj(z) ELSE z), s.b)

\* t after s
Compose(t, s) ==
  Sim(GMul(t.a, IF t.flip THEN GConj(s.a) ELSE s.a),
      GAdd(GMul(t.a, IF t.flip THEN GConj(s.b) ELSE s.b), t.b),
      t.flip # s.flip)

TranslateBy(v) == Sim(GOne, v, FALSE)
RotateBy(u) == Sim(u, GZero, FALSE)          \* u unit Gaussian rational
ReflectX == Sim(GOne, GZero, TRUE)           \* (x, y) -> (x, -y)
ReflectY == Sim(GInt(-1, 0), GZero, TRUE)    \* (x, y) -> (-x, y)
DilateBy(r) == Sim(<<r[1], 0, r[2]>>, GZero, FALSE)
\* orthogonal matrix: rotation by u, or reflection with first column u
OrthRot(u) == Sim(u, GZero, FALSE)
OrthRef(u) == Sim(u, GZero, TRUE)
\* the orientation-preserving similarity taking c0 to p and c1 to q
JoinMap(c0, c1, p, q) ==
  LET k == GDiv(GSub(q, p), GSub(c1, c0))
  IN Sim(k, GSub(p, GMul(k, c0)), FALSE)
=============================================================================
