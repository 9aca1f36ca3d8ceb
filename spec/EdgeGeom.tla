----------------------------- MODULE EdgeGeom -----------------------------
(* C01: one edge object under every history of API calls that define or     *)
(* change its geometry.  The abstract state is the exact similarity `map`   *)
(* from the reference curve to the edge, whether (and how finely) the edge  *)
(* is sampled, and its two topological vertices.                            *)
EXTENDS Similarity, TLC, Json, FiniteSets

CONSTANTS Curves,     \* records [id, p0, p1, loop]: reference endpoints of a curve
          InitPts,    \* vertices for construction
          Depth, MaxBig

VARIABLES cv, map, sampled, anchor, endpnt, hist, big
vars == <<cv, map, sampled, anchor, endpnt, hist, big>>

P0 == cv.p0
P1 == cv.p1
Loop == cv.loop

Points == {GInt(0, 0), GInt(2, 0), GInt(1, 3), GInt(-2, 1)}
Vecs == {GInt(1, 0), GInt(-2, 3), <<1, -1, 2>>}
\* rotation angles with their unit complex number; deg = 999 means atan2
Angles == { [deg |-> 90, u |-> GInt(0, 1)], [deg |-> 180, u |-> GInt(-1, 0)],
            [deg |-> -90, u |-> GInt(0, -1)], [deg |-> 450, u |-> GInt(0, 1)],
            [deg |-> 0, u |-> GOne] }
BigAngles == { [deg |-> 999, u |-> <<3, 4, 5>>], [deg |-> 999, u |-> <<-4, 3, 5>>] }
Factors == { <<2, 1>>, <<1, 2>>, <<-1, 1>>, <<-3, 2>> }
\* orthogonal matrices by first column and determinant
Orths == { [u |-> GInt(0, 1), det |-> -1], [u |-> GInt(-1, 0), det |-> -1],
           [u |-> GInt(0, -1), det |-> 1], [u |-> GInt(-1, 0), det |-> 1] }
BigOrths == { [u |-> <<3, 4, 5>>, det |-> -1], [u |-> <<4, -3, 5>>, det |-> 1],
              [u |-> <<-3, 4, 5>>, det |-> -1] }
Samplings == {4, 7}
BadKinds == {"dilate0", "joinsame", "shear", "shape", "scaled"}

InitMap(p, q) == IF Loop THEN TranslateBy(p) ELSE JoinMap(P0, P1, p, q)

Init == /\ cv \in Curves
        /\ \E p \in InitPts : \E q \in InitPts :
             /\ anchor = p /\ endpnt = (IF Loop THEN p ELSE q)
             /\ (Loop => q = p) /\ (~Loop => p # q)
             /\ map = InitMap(p, q)
        /\ sampled = 0 /\ big = 0
        /\ hist = <<[op |-> "new", p |-> anchor, q |-> endpnt, map |-> map,
                     sampled |-> 0, anchor |-> anchor, endpnt |-> endpnt, ok |-> TRUE]>>

Log(rec) == hist' = Append(hist, rec @@ [map |-> map', sampled |-> sampled',
                           anchor |-> anchor', endpnt |-> endpnt', ok |-> TRUE])

Room == Len(hist) <= Depth
Keep == UNCHANGED <<anchor, endpnt>>
Move(s) == map' = Compose(s, map)

Translate == Room /\ \E v \in Vecs : Move(TranslateBy(v)) /\ Keep
             /\ UNCHANGED <<sampled, big>> /\ Log([op |-> "translate", v |-> v])
Rotate == Room /\ \E r \in Angles : Move(RotateBy(r.u)) /\ Keep
          /\ UNCHANGED <<sampled, big>> /\ Log([op |-> "rotate", deg |-> r.deg, u |-> r.u])
RotateBig == Room /\ big < MaxBig /\ big' = big + 1
             /\ \E r \in BigAngles : Move(RotateBy(r.u)) /\ Keep /\ UNCHANGED sampled
                  /\ Log([op |-> "rotate", deg |-> r.deg, u |-> r.u])
Reflect == Room /\ \E ax \in {"x", "y"} :
             /\ Move(IF ax = "x" THEN ReflectX ELSE ReflectY) /\ Keep
             /\ UNCHANGED <<sampled, big>> /\ Log([op |-> "reflect", axis |-> ax])
Dilate == Room /\ \E f \in Factors : Move(DilateBy(f)) /\ Keep
          /\ UNCHANGED <<sampled, big>> /\ Log([op |-> "dilate", f |-> f])
Orth(S) == \E o \in S :
             /\ Move(IF o.det = 1 THEN OrthRot(o.u) ELSE OrthRef(o.u)) /\ Keep /\ UNCHANGED sampled
             /\ Log([op |-> "orth", u |-> o.u, det |-> o.det])
Orthogonal == Room /\ UNCHANGED big /\ Orth(Orths)
OrthogonalBig == Room /\ big < MaxBig /\ big' = big + 1 /\ Orth(BigOrths)
Join == Room /\ ~Loop /\ big < MaxBig /\ big' = big + 1
        /\ \E p \in Points : \E q \in Points \ {p} :
             /\ map' = Compose(JoinMap(Apply(map, P0), Apply(map, P1), p, q), map)
             /\ anchor' = p /\ endpnt' = q /\ UNCHANGED sampled
             /\ Log([op |-> "join", p |-> p, q |-> q])
Sample == Room /\ \E n \in Samplings : sampled' = n /\ UNCHANGED <<map, big>> /\ Keep
          /\ Log([op |-> "parameterize", n |-> n])
Unsample == Room /\ sampled # 0 /\ sampled' = 0 /\ UNCHANGED <<map, big>> /\ Keep
            /\ Log([op |-> "deparameterize"])
\* rejected calls leave every variable as it was
Reject == Room /\ \E k \in (BadKinds \cup (IF Loop /\ sampled # 0 THEN {"joinloop"} ELSE {})) :
            /\ UNCHANGED <<map, sampled, anchor, endpnt, big>>
            /\ hist' = Append(hist, [op |-> "bad", kind |-> k, map |-> map, sampled |-> sampled,
                                     anchor |-> anchor, endpnt |-> endpnt, ok |-> FALSE])

Next == Translate \/ Rotate \/ RotateBig \/ Reflect \/ Dilate \/ Orthogonal
        \/ OrthogonalBig \/ Join \/ Sample \/ Unsample \/ Reject
Spec == Init /\ [][Next /\ UNCHANGED cv]_vars

\* ---- properties of the specification itself ----
\* the map stays a nondegenerate similarity
NonDegenerate == ~GIsZero(map.a)
\* directly after a construction or join the curve runs from anchor to endpnt
EndsOK == hist[Len(hist)].op \in {"new", "join"} /\ ~Loop =>
            Apply(map, P0) = anchor /\ Apply(map, P1) = endpnt
\* sampling and unsampling never move the curve
SamplingIsObservation == [][sampled' # sampled => map' = map]_vars
\* each isometry has determinant +-1, dilations scale it: |a|^2 only changes on dilate/join
IsometryLaw == [][hist'[Len(hist')].op \in {"translate", "rotate", "reflect", "orth"} =>
                    GMul(map'.a, GConj(map'.a)) = GMul(map.a, GConj(map.a))]_vars

Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson([curve |-> cv.id, hist |-> hist]))
View == <<cv, map, sampled, anchor, endpnt, big>>
=============================================================================
