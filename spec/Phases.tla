------------------------------- MODULE Phases -------------------------------
(* C27, second part: a computation from the mesh to the solution, in stages,  *)
(* with improper requests in between.  An improper request is refused, and    *)
(* the results of all stages, reached before or after, are those of the       *)
(* computation without it.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBad, Total     \* improper requests per stage and altogether

Stages == <<"mesh", "space", "local", "system", "solution", "kept">>
\* improper requests and the stage from which they can be made
Improper == [
  mesh |-> {"space-nomesh", "space-deg0", "space-deg-half", "space-deg-text", "cell-unknown", "edge-no-cell", "edge-number", "mesh-of-text",
            "split-none", "split-one", "split-text", "edgespace-deg0", "edgespace-float", "edgespace-text", "nystrom-text",
            "nystrom-unsampled", "quad-n3", "quad-text", "quad-p1", "circle-joined"},
  space |-> {"deg-0", "deg-text", "mesh-none", "local-unknown", "solver-nospace", "solver-noform", "key-vert", "key-edge", "key-bubb",
             "key-type", "cellspace-deg0", "cellspace-text"},
  local |-> {"mul-text", "add-number", "sub-number", "div-zero", "div-text", "inner-number", "inner-none", "poly-div0", "poly-add",
             "poly-mul", "harm-div0", "harm-mul", "harm-add", "harm-trace", "key-number", "nyst-text", "trace-text", "poly-text", "product-types",
             "product-cell", "conj-short", "neumann-short", "precond", "antilap", "plot-text", "plot-interp", "plot-type", "edge-short",
             "cell-short"},
  system |-> {"combo-missing", "coef-unknown", "plot-unsolved", "plot-list", "plot-short", "plot-number", "space-none", "form-none"},
  solution |-> {"combo-missing", "plot-list", "plot-short", "coef-short", "space-none"},
  kept |-> {"combo-unknown", "plot-short", "plot-type-glob", "form-none", "combo-short"}]

VARIABLES stage, results, bad, hist
vars == <<stage, results, bad, hist>>
Value(k) == <<"result of", Stages[k]>>         \* what the stage alone determines
N == Len(Stages)

Init == stage = 1 /\ results = <<Value(1)>> /\ bad = 0 /\ hist = <<>>
Advance == /\ stage < N /\ stage' = stage + 1 /\ results' = Append(results, Value(stage + 1))
           /\ bad' = 0 /\ hist' = Append(hist, "+")
\* any request known by now may be made at any later stage, if it is improper still
Late == {"combo-missing", "plot-unsolved", "nystrom-unsampled"}
Open == UNION {IF k = stage THEN Improper[Stages[k]] ELSE Improper[Stages[k]] \ Late : k \in 1..stage}
Count == Cardinality({i \in DOMAIN hist : hist[i] # "+"})
Refuse == /\ bad < MaxBad /\ Count < Total
          /\ \E b \in Open : hist' = Append(hist, b)
          /\ bad' = bad + 1 /\ UNCHANGED <<stage, results>>
Next == Advance \/ Refuse
Spec == Init /\ [][Next]_vars

SameResults == results = [k \in 1..stage |-> Value(k)]
Emit == (stage = N /\ bad <= MaxBad) => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================
