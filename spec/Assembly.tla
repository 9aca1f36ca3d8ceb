----------------------------- MODULE Assembly -----------------------------
(* C20, C21: the linear system of a solver.                                  *)
(*                                                                           *)
(* Spaces are recorded numberings: for every cell the global indices of its  *)
(* local basis, in order, and which of them lie on the boundary.  The forms  *)
(* are integer valued: the H1 part, the L2 part and the load of local        *)
(* functions depend on the cell and on the global indices only, through the  *)
(* hashes below, so that every entry of the system is an exact integer and a *)
(* contribution that is missing, repeated or misplaced shows.                *)
(*                                                                           *)
(* The behaviours are the histories of a solver: another form or space may   *)
(* be set, the system assembled again, solved, and the solution read.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File,      \* recorded spaces
          Forms,     \* sequence of [D, R, s]
          MaxOps, Mode   \* "systems": one state per space and form; "histories"

Spaces == IF Mode = "systems" THEN JsonDeserialize(File) ELSE <<>>

VARIABLES hist, set, asm, soln, kept
vars == <<hist, set, asm, soln, kept>>

\* ---- integer forms ----
Hash(s, c, i, j) == ((s * 7 + c * 13 + (i + j) * 5 + i * j * 3 + (i + j) * (i + j) * c) % 101) + 1
H1(s, c, i, j) == IF i = j THEN 9000 + Hash(s, c, i, j) ELSE Hash(s, c, i, j)
L2(s, c, i, j) == IF i = j THEN 8000 + Hash(s + 11, c + 5, i + 3, j + 3) ELSE Hash(s + 11, c + 5, i + 3, j + 3)
Load(s, c, i) == Hash(s + 17, c + 9, i, 2) - 50

\* ---- the system of a space and a form ----
Idx(cell) == {cell.glob[k] : k \in 1..Len(cell.glob)}
RECURSIVE SumSeq(_, _)
SumSeq(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + SumSeq(q, k + 1)
SumCells(cs, f(_)) == SumSeq([k \in 1..Len(cs) |-> f(cs[k])], 1)
Stiff(S, s) == [i \in 1..S.n |-> [j \in 1..S.n |->
  SumCells(S.cells, LAMBDA c : IF {i - 1, j - 1} \subseteq Idx(c) THEN H1(s, c.cell, i - 1, j - 1) ELSE 0)]]
Mass(S, s) == [i \in 1..S.n |-> [j \in 1..S.n |->
  SumCells(S.cells, LAMBDA c : IF {i - 1, j - 1} \subseteq Idx(c) THEN L2(s, c.cell, i - 1, j - 1) ELSE 0)]]
Bdry(S) == UNION {{c.glob[k] : k \in {k \in 1..Len(c.glob) : c.bdry[k]}} : c \in {S.cells[x] : x \in 1..Len(S.cells)}}
Interior(S) == (0..(S.n - 1)) \ Bdry(S)
Rhs(S, s) == [i \in 1..S.n |-> IF i - 1 \in Bdry(S) THEN 0 ELSE
  SumCells(S.cells, LAMBDA c : IF i - 1 \in Idx(c) THEN Load(s, c.cell, i - 1) ELSE 0)]

\* ---- histories of a solver ----
H(r) == hist' = Append(hist, r)
Two == {1, 2}
F == 1..Len(Forms)
None == <<0, 0>>
Assemble(k, sp) == asm' = sp /\ soln' = None /\ kept' = k
Make == \E s \in Two, f \in F, k \in BOOLEAN :
  set' = <<s, f>> /\ Assemble(k, <<s, f>>) /\ H([op |-> "make", s |-> s, f |-> f, keep |-> k])
SetForm == \E f \in F : f # set[2] /\ set' = <<set[1], f>> /\ UNCHANGED <<asm, soln, kept>> /\ H([op |-> "form", f |-> f])
SetSpace == \E s \in Two : s # set[1] /\ set' = <<s, set[2]>> /\ UNCHANGED <<asm, soln, kept>> /\ H([op |-> "space", s |-> s])
Again == \E k \in BOOLEAN : UNCHANGED set /\ Assemble(k, set) /\ H([op |-> "assemble", keep |-> k])
Solve == soln' = asm /\ UNCHANGED <<set, asm, kept>> /\ H([op |-> "solve"])
\* reading solves if nothing has been solved since the last assembly
Read == soln' = (IF soln = None THEN asm ELSE soln) /\ UNCHANGED <<set, asm, kept>> /\ H([op |-> "read"])

Init == hist = <<>> /\ set = None /\ asm = None /\ soln = None /\ kept = FALSE
Next == IF Mode = "systems" THEN
          hist = <<>> /\ \E s \in 1..Len(Spaces), f \in F : asm' = <<s, f>> /\ hist' = <<"system">> /\ UNCHANGED <<set, soln, kept>>
        ELSE IF hist = <<>> THEN Make
        ELSE Len(hist) < MaxOps /\ (SetForm \/ SetSpace \/ Again \/ Solve \/ Read)
Spec == Init /\ [][Next]_vars

\* ---- what must hold of the model ----
\* a solution always belongs to the current system
Fresh == soln \in {None, asm}
Symmetric == (Mode = "systems" /\ hist # <<>>) =>
  LET S == Spaces[asm[1]] s == Forms[asm[2]].s K == Stiff(S, s) M == Mass(S, s) IN
    \A i, j \in 1..S.n : K[i][j] = K[j][i] /\ M[i][j] = M[j][i]
Sizes == (Mode = "systems" /\ hist # <<>>) =>
  LET S == Spaces[asm[1]] IN
    /\ UNION {Idx(S.cells[k]) : k \in 1..Len(S.cells)} = 0..(S.n - 1)
    /\ \A k \in 1..Len(S.cells) : Cardinality(Idx(S.cells[k])) = Len(S.cells[k].glob)

Emit == hist # <<>> => PrintT("@@" \o ToJson(
  IF Mode = "systems" THEN
    LET S == Spaces[asm[1]] s == Forms[asm[2]].s IN
    [space |-> asm[1], form |-> Forms[asm[2]], stiff |-> Stiff(S, s), mass |-> Mass(S, s), rhs |-> Rhs(S, s),
     interior |-> Interior(S)]
  ELSE [hist |-> hist, set |-> set, asm |-> asm, soln |-> soln, kept |-> kept]))
=============================================================================
