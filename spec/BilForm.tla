------------------------------ MODULE BilForm ------------------------------
(* C22: bilinear forms.  Two forms live side by side; their coefficients are *)
(* set again between evaluations.  The functions are polynomials u_1..u_n on *)
(* a cell, whose energies, masses and loads are exact (r + s pi).            *)
EXTENDS CellInt, Poly, Json

CONSTANTS Cells,      \* sequence of [id, cell] as in CellInt
          Funs,       \* sequence of polynomials (lists of terms)
          Loads,      \* the same, right-hand sides
          Starts,     \* sequence of <<D, R, f>>: coefficients of new forms
          Ds, Rs,     \* values to set
          MaxOps

N == Len(Funs)
U == [k \in 1..N |-> PList(Funs[k])]
F == [k \in 1..Len(Loads) |-> PList(Loads[k])]
RECURSIVE PInt(_, _)
PInt(c, s) == IF s = <<>> THEN VZero ELSE VAdd(VScale(Head(s)[1], CellIntegral(c, Head(s)[2], Head(s)[3])), PInt(c, Tail(s)))
\* evaluated once
EN == [c \in 1..Len(Cells) |-> [i \in 1..N |-> [j \in 1..N |->
        PInt(Cells[c].cell, Terms(PAdd(PMul(DX(U[i]), DX(U[j])), PMul(DY(U[i]), DY(U[j])))))]]]
MA == [c \in 1..Len(Cells) |-> [i \in 1..N |-> [j \in 1..N |-> PInt(Cells[c].cell, Terms(PMul(U[i], U[j])))]]]
LO == [c \in 1..Len(Cells) |-> [k \in 1..Len(Loads) |-> [j \in 1..N |-> PInt(Cells[c].cell, Terms(PMul(F[k], U[j])))]]]

VARIABLES form, hist
vars == <<form, hist>>
None == <<>>
Init == form = <<None, None>> /\ hist = <<>>
Put(s, x, r) == form' = [form EXCEPT ![s] = x] /\ hist' = Append(hist, r)
New == \E s \in 1..2, k \in 1..Len(Starts) : (s = 2 => form[1] # None) /\
  Put(s, Starts[k], [op |-> "new", s |-> s, v |-> Starts[k]])
SetD == \E s \in 1..2, d \in Ds : form[s] # None /\ Put(s, [form[s] EXCEPT ![1] = d], [op |-> "D", s |-> s, v |-> d])
SetR == \E s \in 1..2, r \in Rs : form[s] # None /\ Put(s, [form[s] EXCEPT ![2] = r], [op |-> "R", s |-> s, v |-> r])
SetF == \E s \in 1..2, f \in 1..Len(Loads) : form[s] # None /\ Put(s, [form[s] EXCEPT ![3] = f], [op |-> "F", s |-> s, v |-> f])
Next == Len(hist) < MaxOps /\ (New \/ SetD \/ SetR \/ SetF)
Spec == Init /\ [][Next]_vars

Value(x, h1, l2) == VAdd(VScale(x[1], h1), VScale(x[2], l2))
\* which cell is used for a history: any would do
C(h) == ((Len(h) * 3 + Cardinality({k \in 1..Len(h) : h[k].op = "D"}) + (IF h = <<>> THEN 0 ELSE h[Len(h)].s)) % Len(Cells)) + 1

Laws == \A c \in 1..Len(Cells), i, j \in 1..N :
  /\ EN[c][i][j] = EN[c][j][i] /\ MA[c][i][j] = MA[c][j][i]
  /\ (DOMAIN U[i] \subseteq {<<0, 0>>}) => EN[c][i][j] = VZero
LawsOnce == hist = <<>> => Laws
\* the forms do not share anything
Emit == hist # <<>> => PrintT("@@" \o ToJson(
  LET c == C(hist) IN
  [hist |-> hist, cell |-> Cells[c].id,
   now |-> [s \in 1..2 |-> IF form[s] = None THEN <<>> ELSE
     <<[D |-> form[s][1], R |-> form[s][2], f |-> form[s][3],
        a |-> [i \in 1..N |-> [j \in 1..N |-> Value(form[s], EN[c][i][j], MA[c][i][j])]],
        b |-> [j \in 1..N |-> LO[c][form[s][3]][j]]]>>],
   h1 |-> EN[c], l2 |-> MA[c]]))
=============================================================================
