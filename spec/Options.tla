------------------------------ MODULE Options ------------------------------
(* C26: options that only report (messages, progress, diagnostics) or that   *)
(* only ask for extra data (interior values, gradients).  A program is a     *)
(* sequence of stages, each with its own choice of options; what it computes *)
(* is a term over the data alone.  The same program is run a second time     *)
(* without any option, and the two are compared.                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Stages     \* sequence of [name, report: set of levels, extras: set of extras, uses: set of earlier stages]

Extras == {"none", "values", "gradients", "both"}
VARIABLES at, made, plain, opts
vars == <<at, made, plain, opts>>

\* what a stage computes depends on what it uses; what it keeps besides
\* depends on what was asked for
Term(k, done) == [stage |-> Stages[k].name, from |-> [j \in Stages[k].uses |-> done[j].val]]
Keeps(x) == [values |-> x # "none", gradients |-> x \in {"gradients", "both"}]
Run(k, done, rep, x) == Append(done, [val |-> Term(k, done), kept |-> Keeps(x), said |-> rep # "silent"])

Init == at = 1 /\ made = <<>> /\ plain = <<>> /\ opts = <<>>
Next == /\ at <= Len(Stages)
        /\ \E rep \in Stages[at].report, x \in Stages[at].extras :
             /\ made' = Run(at, made, rep, x)
             /\ opts' = Append(opts, [stage |-> Stages[at].name, report |-> rep, extras |-> x])
        /\ plain' = Run(at, plain, "silent", "none")
        /\ at' = at + 1
Spec == Init /\ [][Next]_vars

Done == at = Len(Stages) + 1
SameResults == \A k \in DOMAIN made : made[k].val = plain[k].val
SilentWhenAsked == \A k \in DOMAIN made : made[k].said = (opts[k].report # "silent") /\ ~plain[k].said
KeepsAsked == \A k \in DOMAIN made : made[k].kept = Keeps(opts[k].extras)
Emit == Done => PrintT("@@" \o ToJson([opts |-> opts, kept |-> [k \in DOMAIN made |-> made[k].kept], said |-> [k \in DOMAIN made |-> made[k].said]]))
=============================================================================
