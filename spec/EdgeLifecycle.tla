--------------------------- MODULE EdgeLifecycle ---------------------------
(* C02: edges shared by several cells, sampled and unsampled in any order.   *)
(* An edge object carries one set of samples; a cell that samples its edges  *)
(* orients them along its own boundary, so the samples of a shared edge      *)
(* belong to whichever call touched it last.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NE,        \* edges are 1..NE
          Cells,     \* cell -> set of <<edge, orientation>>
          Samplings, Depth, MeshId

E == 1..NE
C == 1..Len(Cells)
EdgesOf(c) == {p[1] : p \in Cells[c]}
Orient(c, e) == (CHOOSE p \in Cells[c] : p[1] = e)[2]

VARIABLES est,      \* edge -> [n, rev]; n = 0 when not sampled
          fresh,    \* cell -> n if the cell's samples are its own, else 0
          hist
vars == <<est, fresh, hist>>

Unsampled == [n |-> 0, rev |-> FALSE]
Init == /\ est = [e \in E |-> Unsampled]
        /\ fresh = [c \in C |-> 0]
        /\ hist = <<[op |-> "new", est |-> est, fresh |-> fresh]>>

Stale(es) == [c \in C |-> IF EdgesOf(c) \cap es # {} THEN 0 ELSE fresh[c]]
Log(rec) == hist' = Append(hist, rec @@ [est |-> est', fresh |-> fresh'])
Room == Len(hist) <= Depth

SampleEdge == Room /\ \E e \in E : \E n \in Samplings :
   /\ est' = [est EXCEPT ![e] = [n |-> n, rev |-> FALSE]]
   /\ fresh' = Stale({e})
   /\ Log([op |-> "sample", e |-> e, n |-> n])
UnsampleEdge == Room /\ \E e \in E :
   /\ est' = [est EXCEPT ![e] = Unsampled]
   /\ fresh' = Stale({e})
   /\ Log([op |-> "unsample", e |-> e])
\* reversing an unsampled edge is a no-op
ReverseEdge == Room /\ \E e \in E :
   /\ est' = IF est[e].n = 0 THEN est ELSE [est EXCEPT ![e].rev = ~est[e].rev]
   /\ fresh' = IF est[e].n = 0 THEN fresh ELSE Stale({e})
   /\ Log([op |-> "reverse", e |-> e])
SampleCell == Room /\ \E c \in C : \E n \in Samplings :
   /\ est' = [e \in E |-> IF e \in EdgesOf(c)
                          THEN [n |-> n, rev |-> Orient(c, e) = -1] ELSE est[e]]
   /\ fresh' = [Stale(EdgesOf(c)) EXCEPT ![c] = n]
   /\ Log([op |-> "cell", c |-> c, n |-> n])
UnsampleCell == Room /\ \E c \in C :
   /\ est' = [e \in E |-> IF e \in EdgesOf(c) THEN Unsampled ELSE est[e]]
   /\ fresh' = Stale(EdgesOf(c))
   /\ Log([op |-> "uncell", c |-> c])
\* asking the mesh for the cell again (a new object over the same edges)
RebuildCell == Room /\ \E c \in C :
   /\ UNCHANGED est /\ fresh' = [fresh EXCEPT ![c] = 0]
   /\ Log([op |-> "getcell", c |-> c])

Next == SampleEdge \/ UnsampleEdge \/ ReverseEdge \/ SampleCell \/ UnsampleCell
        \/ RebuildCell
Spec == Init /\ [][Next]_vars

\* ---- properties ----
TypeOK == est \in [E -> [n : Samplings \cup {0}, rev : BOOLEAN]]
\* a cell whose samples are its own sees every edge along its own boundary
FreshOK == \A c \in C : fresh[c] # 0 =>
             \A e \in EdgesOf(c) : est[e] = [n |-> fresh[c], rev |-> Orient(c, e) = -1]
\* an edge between two cells is oriented for at most one of them
OneOwner == \A c, d \in C : c # d /\ fresh[c] # 0 /\ fresh[d] # 0 =>
             \A e \in EdgesOf(c) \cap EdgesOf(d) : Orient(c, e) = Orient(d, e)
\* sampling forgets: the result does not depend on the state before
Forget == [][hist'[Len(hist')].op = "sample" =>
             est'[hist'[Len(hist')].e] = [n |-> hist'[Len(hist')].n, rev |-> FALSE]]_vars
\* each cell is recovered by sampling it, whatever happened before
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson([mesh |-> MeshId, hist |-> hist]))
View == <<est, fresh>>
=============================================================================
