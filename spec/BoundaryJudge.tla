--------------------------- MODULE BoundaryJudge ---------------------------
(* Judges recorded boundary tables (trace.json) against BoundaryIndex.       *)
EXTENDS BoundaryIndex
Traces == JsonDeserialize("trace.json")
VARIABLE at
JInit == /\ at \in 1..Len(Traces) /\ sh = 0 /\ layout = 0 /\ hist = 0
JNext == UNCHANGED <<at, vars>>
JSpec == JInit /\ [][JNext]_<<at, vars>>
Verdict == PrintT("@@" \o ToJson([id |-> Traces[at].id, faults |-> Faults(Traces[at].obs)]))
=============================================================================
