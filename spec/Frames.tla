------------------------------- MODULE Frames -------------------------------
(* Data frames and what each stage does to them.                             *)
(* frame == [rows, cells]: row labels in order, and a set of columns         *)
(* [s, z, n, d] = scenario label, its number (0 when it is not a number),    *)
(* column name, values in row order (integers: the value times four).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Scns(f) == {x.s : x \in f.cells}
Content(f, s) == {[n |-> x.n, d |-> x.d] : x \in {y \in f.cells : y.s = s}}
MapCells(f, Op(_)) == [f EXCEPT !.cells = {Op(x) : x \in f.cells}]

\* op.lo / op.hi are sequences: empty when there is no bound
Bound(v, op) == LET u == IF op.lo = <<>> THEN v ELSE Max(v, op.lo[1]) IN IF op.hi = <<>> THEN u ELSE Min(u, op.hi[1])
ClipF(f, op) == MapCells(f, LAMBDA x : [x EXCEPT !.d = [k \in DOMAIN x.d |-> Bound(x.d[k], op)]])
\* op.map: sequence of <<old, new>>
NewName(n, map) == LET h == {k \in DOMAIN map : map[k][1] = n} IN IF h = {} THEN n ELSE map[CHOOSE k \in h : TRUE][2]
RenameF(f, op) == MapCells(f, LAMBDA x : [x EXCEPT !.n = NewName(x.n, op.map)])
DropF(f, op) == [f EXCEPT !.cells = {x \in f.cells : \A k \in DOMAIN op.names : x.n # op.names[k]}]
\* a stage written for one scenario: running sum of column op.i plus op.k * scenario number, put in column op.o
RECURSIVE Sum(_, _)
Sum(d, k) == IF k = 0 THEN 0 ELSE Sum(d, k - 1) + d[k]
FocusCell(f, op, s) == LET x == CHOOSE y \in f.cells : y.s = s /\ y.n = op.i
                       IN [s |-> s, z |-> x.z, n |-> op.o, d |-> [k \in DOMAIN x.d |-> Sum(x.d, k) + 4 * op.k * x.z]]
FocusF(f, op) == [f EXCEPT !.cells = {x \in f.cells : x.n # op.o} \cup {FocusCell(f, op, s) : s \in Scns(f)}]
\* a stage written for the whole frame
DoubleF(f, op) == MapCells(f, LAMBDA x : [x EXCEPT !.d = [k \in DOMAIN x.d |-> 2 * x.d[k]]])

\* repetition: consecutive numbers from zero, n copies of each scenario's content
Repeated(f, op, g) ==
  /\ g.rows = f.rows
  /\ Scns(g) = {ToString(k) : k \in 0..(op.n * Cardinality(Scns(f)) - 1)}
  /\ \A s \in Scns(f) : Cardinality({t \in Scns(g) : Content(g, t) = Content(f, s)})
                         = op.n * Cardinality({t \in Scns(f) : Content(f, t) = Content(f, s)})
\* one admissible result (used by the model)
Rank(f, z) == Cardinality({t \in {x.z : x \in f.cells} : t < z})
RepeatF(f, op) == LET S == Cardinality(Scns(f)) IN
  [f EXCEPT !.cells = UNION {{[s |-> ToString(i * S + Rank(f, x.z)), z |-> i * S + Rank(f, x.z), n |-> x.n, d |-> x.d] : x \in f.cells} : i \in 0..op.n - 1}]

Det(f, op) == CASE op.op = "clip" -> ClipF(f, op) [] op.op = "rename" -> RenameF(f, op) [] op.op = "drop" -> DropF(f, op)
                [] op.op = "focus" -> FocusF(f, op) [] op.op = "double" -> DoubleF(f, op) [] op.op = "same" -> f
Does(f, op, g) == IF op.op = "repeat" THEN Repeated(f, op, g) ELSE g = Det(f, op)
=============================================================================
