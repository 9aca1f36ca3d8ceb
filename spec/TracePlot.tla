---------------------------- MODULE TracePlot ----------------------------
(* C23: trace plots.  The traces are numbers 1..NumTraces; 0 stands for an   *)
(* array of the wrong length, -1 for something that is not a trace.  A call  *)
(* that is refused leaves the plot as it was; drawing shows every trace once *)
(* with the format and the label that belong to it, or is refused when the   *)
(* formats or labels no longer fit the traces.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NumTraces, Fmts, MaxOps,
          Mode, File     \* "histories"; "ticks": recorded ticks are judged

VARIABLES hist, plot, figs
vars == <<hist, plot, figs>>

\* ---- ticks ----
\* a record has n edges, at most `most` ticks; at: position in units of 2 pi
\* (-1: not a multiple), label: the multiple of 2 pi that the label says
Ticks == IF Mode = "ticks" THEN JsonDeserialize(File) ELSE <<>>
TickOK(r) ==
  LET k == Len(r.at) IN
  /\ Len(r.label) = k /\ k >= 2 /\ k <= r.most
  /\ r.at[1] = 0 /\ r.at[k] = r.n
  /\ \A i \in 1..k : r.at[i] = r.label[i]
  /\ \A i \in 1..(k - 1) : r.at[i] < r.at[i + 1]

\* ---- the plot ----
Lists == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 2>>, <<3, 1, 2>>, <<1, 0>>, <<-1, 1>>, <<0>>}
Single == {<<1>>, <<3>>, <<0>>, <<-1>>}       \* a trace that is not in a list
TracesOf(x) == x.v
TraceArgs == {[list |-> TRUE, v |-> x] : x \in Lists} \cup {[list |-> FALSE, v |-> x] : x \in Single}
FmtArgs == {[kind |-> "str", v |-> <<f>>] : f \in Fmts} \cup {[kind |-> "list", v |-> s] : s \in UNION {[1..n -> Fmts] : n \in 0..3}}
           \cup {[kind |-> "other", v |-> <<>>]}
LegendArgs == {[kind |-> "tuple", v |-> n] : n \in 0..3} \cup {[kind |-> "list", v |-> n] : n \in {0, 2}} \cup {[kind |-> "str", v |-> 1]}

BadTraces(x) == \E i \in 1..Len(TracesOf(x)) : TracesOf(x)[i] < 1
FitsFmt(f, n) == f.kind = "str" \/ (f.kind = "list" /\ Len(f.v) = n)
FitsLegend(l, n) == l.kind = "tuple" /\ l.v \in {0, n}
FmtAt(f, i) == IF f.kind = "str" THEN f.v[1] ELSE f.v[i]
Drawable(p) == FitsFmt(p.fmt, Len(p.traces)) /\ FitsLegend(p.legend, Len(p.traces))
Fig(p) == [lines |-> [i \in 1..Len(p.traces) |-> [trace |-> p.traces[i], fmt |-> FmtAt(p.fmt, i)]],
           labels |-> p.legend.v, title |-> p.title, log |-> p.log, grid |-> p.grid]

H(r) == hist' = Append(hist, r)
Keep(op, arg, ok, next) == plot' = (IF ok THEN next ELSE plot) /\ H([op |-> op, arg |-> arg, ok |-> ok]) /\ UNCHANGED figs
Default == [traces |-> <<>>, fmt |-> [kind |-> "str", v |-> <<"k-">>], legend |-> [kind |-> "tuple", v |-> 0],
            title |-> "", log |-> FALSE, grid |-> TRUE]
Make == \E x \in TraceArgs, l \in BOOLEAN, g \in BOOLEAN :
  /\ ~BadTraces(x)
  /\ plot' = [Default EXCEPT !.traces = TracesOf(x), !.log = l, !.grid = g]
  /\ H([op |-> "make", arg |-> [traces |-> x, log |-> l, grid |-> g], ok |-> TRUE]) /\ UNCHANGED figs
SetTraces == \E x \in TraceArgs : Keep("traces", x, ~BadTraces(x), [plot EXCEPT !.traces = TracesOf(x)])
SetFmt == \E f \in FmtArgs : Keep("fmt", f, FitsFmt(f, Len(plot.traces)), [plot EXCEPT !.fmt = f])
SetLegend == \E l \in LegendArgs : Keep("legend", l, FitsLegend(l, Len(plot.traces)), [plot EXCEPT !.legend = l])
SetTitle == \E t \in {"", "one", "two"} : t # plot.title /\ Keep("title", t, TRUE, [plot EXCEPT !.title = t])
SetBool == \/ Keep("log", ~plot.log, TRUE, [plot EXCEPT !.log = ~plot.log])
           \/ Keep("grid", ~plot.grid, TRUE, [plot EXCEPT !.grid = ~plot.grid])
SetWrong == \E w \in {"title", "log", "grid"} : Keep("wrong " \o w, 0, FALSE, plot)
Draw == \E s, f \in BOOLEAN :
  /\ UNCHANGED plot
  /\ H([op |-> "draw", arg |-> [show |-> s, file |-> f], ok |-> Drawable(plot)])
  /\ figs' = Append(figs, IF Drawable(plot) THEN Fig(plot) ELSE <<>>)

Init == hist = <<>> /\ plot = Default /\ figs = <<>>
Next == IF Mode = "ticks" THEN
          hist = <<>> /\ \E i \in 1..Len(Ticks) : hist' = <<i>> /\ UNCHANGED <<plot, figs>>
        ELSE IF hist = <<>> THEN Make
        ELSE IF Len(hist) = MaxOps - 1 THEN Draw
        ELSE Len(hist) < MaxOps /\ (SetTraces \/ SetFmt \/ SetLegend \/ SetTitle \/ SetBool \/ SetWrong \/ Draw)
Spec == Init /\ [][Next]_vars

\* ---- what must hold of the model ----
Histories == Mode = "histories"
EachOnce == Histories => \A k \in 1..Len(figs) : figs[k] = <<>> \/
  (Len(figs[k].lines) >= figs[k].labels /\ (figs[k].labels > 0 => figs[k].labels = Len(figs[k].lines)))
\* a refused call leaves no trace
Refused == (Histories /\ hist # <<>> /\ ~hist[Len(hist)].ok) => hist[Len(hist)].op # "make"
TicksOK == (Mode = "ticks" /\ hist # <<>>) => IF TickOK(Ticks[hist[1]]) THEN TRUE ELSE
  PrintT("@@" \o ToJson([bad |-> hist[1]]))
Emit == (Histories /\ Len(hist) = MaxOps) => PrintT("@@" \o ToJson([hist |-> hist, figs |-> figs]))
=============================================================================
