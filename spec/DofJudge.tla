----------------------------- MODULE DofJudge -----------------------------
(* C19: decides recorded numberings.  A case lists, for every visit of a     *)
(* cell, the functions of its basis in order: what each is (measured from    *)
(* its trace and Laplacian: type, vertex / edge / cell, and a class that two *)
(* functions share exactly when they agree), its key, its global index and   *)
(* boundary flag.  Nothing is assumed about which number is given to which   *)
(* function.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File
Cases == JsonDeserialize(File)
VARIABLE at
Init == at \in 1..Len(Cases)
Next == UNCHANGED at
Spec == Init /\ [][Next]_at

C == Cases[at]
Id(f) == <<f.type, f.ent, f.class>>
SeqSet(s) == {s[k] : k \in 1..Len(s)}
AllFuns == UNION {SeqSet(C.visits[k].funs) : k \in 1..Len(C.visits)}
FunsOf(c) == {x \in SeqSet(C.cells) : x.cell = c}
Want(c) == LET w == CHOOSE x \in FunsOf(c) : TRUE IN w

\* one number per function, one function per number
OneToOne == /\ \A f \in AllFuns, g \in AllFuns : Id(f) = Id(g) <=> f.glob = g.glob
Range == \A f \in AllFuns : f.glob \in 0..(C.total - 1)
Complete == {C.visits[k].cell : k \in 1..Len(C.visits)} = SeqSet(C.allcells)
            => {f.glob : f \in AllFuns} = 0..(C.total - 1)
Counts == <<C.total, C.nvert, C.nedge, C.nbubb>> = <<C.gtotal, C.gvert, C.gedge, C.gbubb>>
\* every visit: exactly the functions of the cell
Basis == \A k \in 1..Len(C.visits) :
  LET fs == C.visits[k].funs w == Want(C.visits[k].cell) s == SeqSet(fs) IN
  /\ Cardinality({Id(f) : f \in s}) = Len(fs)
  /\ \A v \in SeqSet(w.verts) : Cardinality({f \in s : f.type = "vert" /\ f.ent = v.v}) = 1
  /\ \A e \in SeqSet(w.edges) : Cardinality({f \in s : f.type = "edge" /\ f.ent = e.e - 1}) = e.n
  /\ Cardinality({f \in s : f.type = "bubb"}) = w.bubb
  /\ \A f \in s : f.type = "vert" => \E v \in SeqSet(w.verts) : f.ent = v.v
  /\ \A f \in s : f.type = "edge" => \E e \in SeqSet(w.edges) : f.ent = e.e - 1
\* the key says what the function is
Keys == \A f \in AllFuns :
  /\ f.ktype = f.type
  /\ f.kvert = (IF f.type = "vert" THEN f.ent ELSE -1)
  /\ f.kedge = (IF f.type = "edge" THEN f.ent ELSE -1)
  /\ (f.kk >= 0) = (f.type # "vert")
  /\ \A g \in AllFuns : f.type = g.type /\ f.ent = g.ent => (f.kk = g.kk <=> f.class = g.class)
\* the space's own list of the cell's keys is in the order of the basis
Order == \A k \in 1..Len(C.visits) :
  C.visits[k].dofs = [i \in 1..Len(C.visits[k].funs) |-> C.visits[k].funs[i].glob]
Flags == \A k \in 1..Len(C.visits) : LET w == Want(C.visits[k].cell) IN
  \A f \in SeqSet(C.visits[k].funs) :
     f.flag = CASE f.type = "vert" -> (CHOOSE v \in SeqSet(w.verts) : v.v = f.ent).bdry
                [] f.type = "edge" -> (CHOOSE e \in SeqSet(w.edges) : e.e - 1 = f.ent).bdry
                [] OTHER -> FALSE
Faults ==
  (IF Counts THEN {} ELSE {"counts"}) \cup
  (IF Basis THEN IF Flags THEN {} ELSE {"boundary flags"} ELSE {"functions of a cell"}) \cup
  (IF OneToOne THEN {} ELSE {"one number per function"}) \cup
  (IF Range THEN {} ELSE {"range of the numbers"}) \cup
  (IF Complete THEN {} ELSE {"every number is used"}) \cup
  (IF Keys THEN {} ELSE {"keys"}) \cup
  (IF Order THEN {} ELSE {"order of the keys"})
Verdict == PrintT("@@" \o ToJson([id |-> C.id, faults |-> Faults]))
=============================================================================
