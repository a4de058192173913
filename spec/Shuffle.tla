------------------------------ MODULE Shuffle ------------------------------
(* The shuffler: timelines registered under names, each a sequence of        *)
(* scenario rows; a shuffle picks nb rows of every timeline.                 *)
EXTENDS Frames, Pipeline

\* rows of a pipeline timeline: the column "to_shuffler" of every scenario of the pipeline's output
RECURSIVE Run(_, _)
Run(f, ops) == IF ops = <<>> THEN f
               ELSE Run(IF ops[1].op = "repeat" THEN RepeatF(f, ops[1]) ELSE Det(f, ops[1]), Tail(ops))
Elems(q) == {q[k] : k \in DOMAIN q}
StageOf(op) == [free |-> op.free, ins |-> Elems(op.ins), outs |-> Elems(op.outs)]
IfaceOf(ops) == Interface([k \in DOMAIN ops |-> StageOf(ops[k])])
Accepts(cols, ops) == IfaceOf(ops).ins \subseteq cols /\ "to_shuffler" \in IfaceOf(ops).outs
OutRows(g) == {x \in g.cells : x.n = "to_shuffler"}

\* bag of rows: how many scenarios show a given row
Times(rows, r) == Cardinality({k \in DOMAIN rows : rows[k] = r})

\* one timeline's answer. tl == [kind, rows]; raw rows are in order, pipeline rows in some order
Sampled(tl, nb, got) == Len(got) = nb /\ \A k \in DOMAIN got : got[k] \in Elems(tl.rows)
\* the samplers used in the sessions: functions of the number of scenarios and of rows
Script(how, n, nb) == [k \in 1..nb |-> CASE how = "range" -> (k - 1) % n [] how = "last" -> n - 1
                                         [] how = "mix" -> (3 * (k - 1) + 1 + nb) % n [] how = "down" -> (n - 1) - ((k - 1) % n)]
\* selection by a known sampler: idx are the (zero-based) indices the sampler answered
Selected(tl, idx, got) ==
  /\ Len(got) = Len(idx)
  /\ IF tl.kind = "raw" THEN \A k \in DOMAIN got : got[k] = tl.rows[idx[k] + 1]
     ELSE /\ \A j, k \in DOMAIN got : idx[j] = idx[k] => got[j] = got[k]
          /\ \A k \in DOMAIN got : got[k] \in Elems(tl.rows)
          \* distinct indices are distinct scenarios: no row is shown by more indices than scenarios hold it
          /\ \A r \in Elems(got) : Cardinality({idx[k] : k \in {j \in DOMAIN got : got[j] = r}}) <= Times(tl.rows, r)
=============================================================================
