------------------------------- MODULE Legacy -------------------------------
(* C24: interfaces kept for older programs.  Piecewise polynomials assign a  *)
(* polynomial to every edge of a list; evaluating them gives the values of   *)
(* each at all samples of its edge, edge after edge.  The edges are turned   *)
(* around and sampled again in between.  Lists of polynomials are evaluated  *)
(* row by row.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Edges,      \* number of edges; the cell has all of them
          Rules,      \* rule -> points on each edge: sequence of sequences
          MaxOps, EmitAll

VARIABLES obj, rule, turned, hist
vars == <<obj, rule, turned, hist>>
E == 1..Edges
Polys == {"p", "q", "r", "0"}
Pattern(n, s) == [k \in 1..n |-> CASE (k + s) % 3 = 0 -> "p" [] (k + s) % 3 = 1 -> "q" [] OTHER -> "r"]
Zeros(n) == [k \in 1..n |-> "0"]
None == [n |-> 0, l |-> <<>>, idx |-> 0]
Init == obj = <<None, None>> /\ rule = 1 /\ turned = {} /\ hist = <<>>
H(r) == hist' = Append(hist, r)
Live(k) == obj[k].n > 0
Same == UNCHANGED <<rule, turned>>

New == \E k \in 1..2, n \in 1..Edges, s \in 0..2, given \in BOOLEAN :
  /\ k = 2 => Live(1)
  /\ ~given => s = 0
  /\ LET l == IF given THEN Pattern(n, s) ELSE Zeros(n) IN
     /\ obj' = [obj EXCEPT ![k] = [n |-> n, l |-> l, idx |-> s]]
     /\ H([op |-> "new", k |-> k, n |-> n, l |-> IF given THEN l ELSE <<>>, idx |-> s])
  /\ Same
SetPolys == \E k \in 1..2, s \in 0..2, given \in BOOLEAN : Live(k) /\ (~given => s = 0) /\
  LET l == IF given THEN Pattern(obj[k].n, s) ELSE Zeros(obj[k].n) IN
  /\ obj' = [obj EXCEPT ![k].l = l] /\ H([op |-> "polys", k |-> k, l |-> IF given THEN l ELSE <<>>]) /\ Same
Resize == \E k \in 1..2, n \in 1..Edges, s \in 0..1 : Live(k) /\ n # obj[k].n /\
  /\ obj' = [obj EXCEPT ![k].n = n, ![k].l = Pattern(n, s)]
  /\ H([op |-> "resize", k |-> k, n |-> n, l |-> Pattern(n, s)]) /\ Same
SetIdx == \E k \in 1..2, i \in {0, 3} : Live(k) /\ obj[k].idx # i /\
  /\ obj' = [obj EXCEPT ![k].idx = i] /\ H([op |-> "idx", k |-> k, i |-> i]) /\ Same
Turn == \E e \in E : turned' = (turned \ {e}) \cup ({e} \ turned) /\ H([op |-> "turn", e |-> e]) /\ UNCHANGED <<obj, rule>>
Sample == \E r \in 1..Len(Rules) : r # rule /\ rule' = r /\ H([op |-> "sample", r |-> r]) /\ UNCHANGED <<obj, turned>>
Next == Len(hist) < MaxOps /\ (New \/ SetPolys \/ Resize \/ SetIdx \/ Turn \/ Sample)
Spec == Init /\ [][Next]_vars

\* ---- what an evaluation gives: one block for every edge of the list -------
Block(k, es, j) == [poly |-> obj[k].l[j], edge |-> es[j], back |-> es[j] \in turned, pts |-> Rules[rule][es[j]]]
Eval(k, es) == IF Len(es) # obj[k].n THEN <<>> ELSE [j \in 1..Len(es) |-> Block(k, es, j)]
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).pts + Sum(Tail(s))
AllEdges == [j \in E |-> j]
\* the lists looked at after a history: rotations and repetitions
Lists(n) == {[j \in 1..m |-> ((j * d + s) % Edges) + 1] : m \in ({n, n + 1} \ {0}), d \in {0, 1, 2}, s \in {0, n % Edges}}

Laws == \A k \in 1..2 : Live(k) =>
  /\ Len(obj[k].l) = obj[k].n
  /\ \A es \in Lists(obj[k].n) :
       IF Len(es) # obj[k].n THEN Eval(k, es) = <<>>
       ELSE /\ Len(Eval(k, es)) = Len(es)
            /\ Sum(Eval(k, es)) = Sum([j \in 1..Len(es) |-> [pts |-> Rules[rule][es[j]]]])
Emit == (EmitAll \/ Len(hist) = MaxOps) /\ hist # <<>> => PrintT("@@" \o ToJson(
  [hist |-> hist,
   now |-> [k \in 1..2 |-> IF ~Live(k) THEN <<>> ELSE
     <<[n |-> obj[k].n, idx |-> obj[k].idx, l |-> obj[k].l,
        evals |-> {[es |-> es, want |-> Eval(k, es)] : es \in Lists(obj[k].n)},
        cell |-> Eval(k, AllEdges)]>>]]))
=============================================================================
