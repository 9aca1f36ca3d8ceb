----------------------------- MODULE LegacyFun -----------------------------
(* C24: what a local function of the old kind has computed, depending on     *)
(* what was asked for when it was made and afterwards.                       *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES made, l2, vals, grad, hist
vars == <<made, l2, vals, grad, hist>>
Init == made = FALSE /\ l2 = FALSE /\ vals = FALSE /\ grad = FALSE /\ hist = <<>>
New == \E a, v, g \in BOOLEAN : ~made /\ made' = TRUE /\ l2' = a /\ vals' = (v \/ g) /\ grad' = g
         /\ hist' = <<[op |-> "new", l2 |-> a, v |-> v, g |-> g]>>
\* asking again replaces the values; without gradients, old ones mean nothing
Ask == \E g \in BOOLEAN : made /\ vals' = TRUE /\ grad' = g /\ UNCHANGED <<made, l2>>
         /\ hist' = Append(hist, [op |-> "ask", g |-> g])
Next == Len(hist) < 3 /\ (New \/ Ask)
Spec == Init /\ [][Next]_vars
Laws == grad => vals
Emit == made => PrintT("@@" \o ToJson([hist |-> hist, l2 |-> l2, vals |-> vals, grad |-> grad]))
=============================================================================
