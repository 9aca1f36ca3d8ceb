---------------------------- MODULE CellTopology ----------------------------
(* C04: the boundary of a cell as closed contours, from edges listed in any  *)
(* order and stored in either direction.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT Shapes
\* shape: [id, edges]; edge: [p, q, loop, outer, a2] in the cell's own
\* orientation, p and q integer points; for a loop p = q is the point where its
\* curve starts (not its anchor: a circle is anchored at its centre) and a2 is
\* twice the signed area it encloses (for an open edge, the area between chord
\* and curve); `c` says which contour the edge belongs to in the design and is
\* used only to cross-check the algorithm.  ok = FALSE: contours touch.

VARIABLES sh, list, fault
vars == <<sh, list, fault>>

N == Len(sh.edges)
Placed == {list[k].e : k \in 1..Len(list)}

Init == /\ \E i \in 1..Len(Shapes) : sh = Shapes[i]
        /\ list = <<>> /\ fault = "none"

\* list the next edge, stored along (side = 1) or against (-1) the cell
Place == /\ Len(list) < N /\ fault = "none"
         /\ \E e \in (1..N) \ Placed : \E side \in {1, -1} :
              /\ sh.edges[e].loop => side = (IF sh.edges[e].a2 > 0 THEN 1 ELSE -1)
              /\ list' = Append(list, [e |-> e, side |-> side])
         /\ UNCHANGED <<sh, fault>>

\* ways in which a complete list stops being the boundary of the cell
Drop == /\ Len(list) = N /\ fault = "none"
        /\ \E k \in 1..N : ~sh.edges[list[k].e].loop
             /\ list' = SubSeq(list, 1, k - 1) \o SubSeq(list, k + 1, N)
        /\ fault' = "drop" /\ UNCHANGED sh
Twice == /\ Len(list) = N /\ fault = "none"
         /\ \E k \in 1..N : list' = Append(list, list[k])
         /\ fault' = "twice" /\ UNCHANGED sh
WrongSide == /\ Len(list) = N /\ fault = "none"
             /\ \E k \in 1..N : ~sh.edges[list[k].e].loop
                  /\ list' = [list EXCEPT ![k] = [e |-> @.e, side |-> @.side, wrong |-> 1]]
             /\ fault' = "wrongside" /\ UNCHANGED sh
Foreign == /\ Len(list) = N /\ fault = "none"
           /\ \E k \in 1..N : list' = [list EXCEPT ![k] = [e |-> @.e, side |-> 0]]
           /\ fault' = "foreign" /\ UNCHANGED sh

Next == Place \/ Drop \/ Twice \/ WrongSide \/ Foreign
Spec == Init /\ [][Next]_vars

\* ---- what the listed edges mean ----
Wrong(r) == "wrong" \in DOMAIN r
Start(r) == LET d == sh.edges[r.e] IN IF Wrong(r) THEN d.q ELSE d.p
End(r) == LET d == sh.edges[r.e] IN IF Wrong(r) THEN d.p ELSE d.q
IsLoop(r) == sh.edges[r.e].loop
Follows(k, m) == \* edge m starts where edge k ends
  End(list[k]) = Start(list[m])
Ix == 1..Len(list)
Valid == /\ \A k \in Ix : list[k].side # 0
         /\ \A k \in Ix : Cardinality({m \in Ix : Follows(k, m)}) = 1
         /\ \A m \in Ix : Cardinality({k \in Ix : Follows(k, m)}) = 1
         /\ Cardinality(Placed) = Len(list)

Succ(k) == CHOOSE m \in Ix : Follows(k, m)
RECURSIVE Walk(_, _)
Walk(first, k) == IF Succ(k) = first THEN <<k>> ELSE <<k>> \o Walk(first, Succ(k))
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(s) == {s[i] : i \in 1..Len(s)}
\* contours, each from its first listed edge
Contours == LET starts == {k \in Ix : k = Min(Range(Walk(k, k)))}
            IN {Walk(k, k) : k \in starts}
Holes == Cardinality(Contours) - 1

\* twice the signed area of a contour (chords; loops carry their own)
RECURSIVE Shoelace(_)
Shoelace(w) == IF w = <<>> THEN 0
  ELSE LET r == list[Head(w)] d == sh.edges[r.e] IN
       (IF d.loop THEN d.a2 ELSE d.a2 + d.p[1] * d.q[2] - d.q[1] * d.p[2])
       + Shoelace(Tail(w))
Outer == CHOOSE w \in Contours : \A v \in Contours : Shoelace(w) >= Shoelace(v)

\* ---- properties of the specification ----
Complete == Len(list) = N /\ fault = "none" /\ sh.ok
Touching == Len(list) = N /\ fault = "none" /\ ~sh.ok
DesignValid == Complete => Valid
TouchingInvalid == Touching => ~Valid
FaultInvalid == (fault # "none" /\ sh.ok) => ~Valid
\* the contours are those of the design, whatever the listing
DesignContours == Complete =>
  {{list[k].e : k \in Range(w)} : w \in Contours}
    = {{e \in 1..N : sh.edges[e].c = c} : c \in {sh.edges[e].c : e \in 1..N}}
OuterUnique == Complete =>
  /\ {list[k].e : k \in Range(Outer)} = {e \in 1..N : sh.edges[e].c = 1}
  /\ \A w \in Contours : (Shoelace(w) > 0) <=> (w = Outer)

Emit == (Complete \/ Touching \/ (fault # "none" /\ sh.ok)) =>
  PrintT("@@" \o ToJson([shape |-> sh.id, fault |-> fault, list |-> list, valid |-> Valid,
     contours |-> IF Valid THEN Contours ELSE {}, holes |-> IF Valid THEN Holes ELSE 0,
     outer |-> IF Valid THEN Outer ELSE <<>>]))
=============================================================================
