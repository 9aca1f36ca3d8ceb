------------------------------- MODULE Split -------------------------------
(* C03: splitting an edge, after any transformations, repeatedly.  A piece   *)
(* is the parent's exact similarity restricted to a parameter interval       *)
(* (rational multiples of pi); the pieces always tile the parent's interval. *)
EXTENDS Similarity, TLC, Json, FiniteSets

CONSTANTS Curves, Depth, MaxPieces

VARIABLES cv, pieces, nsplit, hist, big
vars == <<cv, pieces, nsplit, hist, big>>

Piece(m, lo, hi) == [map |-> m, lo |-> lo, hi |-> hi]
Whole == Piece(IF cv.loop THEN TranslateBy(GInt(1, 2))
               ELSE JoinMap(cv.p0, cv.p1, GInt(1, 2), GInt(-1, 1)), cv.lo, cv.hi)

Init == /\ cv \in Curves
        /\ pieces = <<Whole>> /\ nsplit = 0 /\ big = 0
        /\ hist = <<[op |-> "new", pieces |-> pieces]>>

Log(rec) == hist' = Append(hist, rec @@ [pieces |-> pieces'])
Room == Len(hist) <= Depth

\* ---- transformations act on one piece object ----
Moves == { [k |-> "translate", v |-> GInt(2, -1), s |-> TranslateBy(GInt(2, -1))],
           [k |-> "rotate", v |-> GInt(0, 1), s |-> RotateBy(GInt(0, 1))],
           [k |-> "rotate", v |-> <<3, 4, 5>>, s |-> RotateBy(<<3, 4, 5>>)],
           [k |-> "reflectx", v |-> GOne, s |-> ReflectX],
           [k |-> "reflecty", v |-> GOne, s |-> ReflectY],
           [k |-> "orthref", v |-> GInt(0, 1), s |-> OrthRef(GInt(0, 1))],
           [k |-> "dilate", v |-> GInt(-2, 0), s |-> DilateBy(<<-2, 1>>)],
           [k |-> "dilate", v |-> <<1, 0, 2>>, s |-> DilateBy(<<1, 2>>)] }
Transform == Room /\ big < 3 /\ big' = big + 1 /\ UNCHANGED nsplit
  /\ \E i \in 1..Len(pieces) : \E m \in Moves :
       /\ pieces' = [pieces EXCEPT ![i].map = Compose(m.s, @)]
       /\ Log([op |-> "transform", i |-> i, kind |-> m.k, v |-> m.v])
SampleIt == Room /\ UNCHANGED <<pieces, nsplit, big>>
  /\ \E i \in 1..Len(pieces) : Log([op |-> "sample", i |-> i])

\* ---- splitting piece i at increasing fractions of its interval ----
At(p, f) == QAdd(p.lo, QMul(f, QSub(p.hi, p.lo)))
Cuts(p, fs) == [j \in 1..(Len(fs) + 1) |->
   Piece(p.map, IF j = 1 THEN p.lo ELSE At(p, fs[j - 1]),
                IF j = Len(fs) + 1 THEN p.hi ELSE At(p, fs[j]))]
Replace(i, new) == SubSeq(pieces, 1, i - 1) \o new \o SubSeq(pieces, i + 1, Len(pieces))
Fractions == { <<1, 4>>, <<1, 2>>, <<2, 3>> }
Lists == { <<<<1, 2>>>>, <<<<1, 4>>, <<1, 2>>>>, <<<<1, 8>>, <<1, 2>>, <<3, 4>>>> }
Split(i, fs, form) ==
   /\ Len(pieces) + Len(fs) <= MaxPieces
   /\ pieces' = Replace(i, Cuts(pieces[i], fs)) /\ nsplit' = nsplit + 1 /\ UNCHANGED big
   /\ Log([op |-> "split", i |-> i, fs |-> fs, form |-> form])
SplitAt == Room /\ \E i \in 1..Len(pieces) : \E f \in Fractions : Split(i, <<f>>, "float")
SplitList == Room /\ \E i \in 1..Len(pieces) : \E fs \in Lists :
   \E form \in {"list", "array", "reversed"} : Split(i, fs, form)
SplitNum == Room /\ \E i \in 1..Len(pieces) : \E k \in {2, 3, 4} :
   Split(i, [j \in 1..(k - 1) |-> Q(j, k)], "num")
Bad == Room /\ UNCHANGED <<pieces, nsplit, big>>
   /\ \E i \in 1..Len(pieces) :
      \E k \in {"none", "one", "zero", "below", "above", "lo", "hi", "string", "mixed"} :
        Log([op |-> "bad", i |-> i, kind |-> k])

Next == Transform \/ SampleIt \/ SplitAt \/ SplitList \/ SplitNum \/ Bad
Spec == Init /\ [][Next /\ UNCHANGED cv]_vars

\* ---- properties ----
\* the pieces tile the parameter interval in order
Tiling == /\ pieces[1].lo = cv.lo /\ pieces[Len(pieces)].hi = cv.hi
          /\ \A i \in 1..(Len(pieces) - 1) : pieces[i].hi = pieces[i + 1].lo
          /\ \A i \in 1..Len(pieces) : QLt(pieces[i].lo, pieces[i].hi)
\* a split piece inherits its parent's similarity
Inherit == [][nsplit' # nsplit => {p.map : p \in {pieces'[i] : i \in 1..Len(pieces')}}
                                    \subseteq {p.map : p \in {pieces[i] : i \in 1..Len(pieces)}}]_vars
Emit == (Len(hist) = Depth + 1 /\ nsplit > 0) =>
           PrintT("@@" \o ToJson([curve |-> cv.id, hist |-> hist]))
=============================================================================
