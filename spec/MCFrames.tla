------------------------------ MODULE MCFrames ------------------------------
(* Chains of stages on a small frame: what the stages guarantee together.    *)
(* Every applicable chain is printed and run on the real code.               *)
EXTENDS Frames, Pipeline, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)       \* [ops, len, rows, cells]
Set(q) == {q[k] : k \in DOMAIN q}
F0 == [rows |-> Cfg.rows, cells |-> Set(Cfg.cells)]
Ops == Cfg.ops                          \* each with free, ins, outs
Stage(op) == [free |-> op.free, ins |-> Set(op.ins), outs |-> Set(op.outs)]
VARIABLES f, chain, last
vars == <<f, chain, last>>
Init == f = F0 /\ chain = <<>> /\ last = F0
Names(g) == {x.n : x \in g.cells}
\* no column is created over an untouched one, and the frame never loses all its columns
Clean(g, op) == \A n \in Set(op.outs) : n \in Names(g) => n \in Set(op.ins)
Apply(g, op) == IF op.op = "repeat" THEN RepeatF(g, op) ELSE Det(g, op)
Next == /\ Len(chain) < Cfg.len
        /\ \E k \in DOMAIN Ops :
             LET op == Ops[k] ch == Append(chain, k) IN
             /\ Accepted([i \in DOMAIN ch |-> Stage(Ops[ch[i]])]) /\ Set(op.ins) \subseteq Names(f) /\ Clean(f, op)
             /\ Apply(f, op).cells # {}
             /\ f' = Apply(f, op) /\ chain' = ch /\ last' = f
             /\ PrintT("@@CHAIN|" \o ToJson(ch))
Spec == Init /\ [][Next]_vars

Op == Ops[chain[Len(chain)]]
SameRows == f.rows = F0.rows /\ \A x \in f.cells : Len(x.d) = Len(f.rows)
NoTwins == \A x, y \in f.cells : x.s = y.s /\ x.n = y.n => x = y
Admissible == chain # <<>> => Does(last, Op, f)
Declared == chain # <<>> => \A s \in Scns(f) : Interface([i \in DOMAIN chain |-> Stage(Ops[chain[i]])]).outs \subseteq {x.n : x \in {y \in f.cells : y.s = s}}
Untouched == chain # <<>> /\ Op.op \in {"rename", "drop", "focus"} =>
               \A x \in last.cells : x.n \notin Set(Op.ins) => x \in f.cells
Counted == chain # <<>> => Cardinality(Scns(f)) = (IF Op.op = "repeat" THEN Op.n ELSE 1) * Cardinality(Scns(last))
Bounded == chain # <<>> /\ Op.op = "clip" => ClipF(f, Op) = f
=============================================================================
