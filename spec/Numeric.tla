------------------------------- MODULE Numeric -------------------------------
(* Meaning of a numeric argument of a study with horizon H and S scenarios.  *)
(* An argument is described by its shape dims: <<>> a number, <<n>> a        *)
(* sequence, <<m, n>> a table, longer: a deeper array; its cells are         *)
(* numbered row by row from 1.                                               *)
EXTENDS Naturals, Sequences, FiniteSets

Forms(dims, H, S) ==
    (IF dims = <<>> THEN {"scalar"} ELSE {}) \cup
    (IF dims = <<H>> THEN {"row"} ELSE {}) \cup
    (IF dims = <<S, 1>> THEN {"column"} ELSE {}) \cup
    (IF dims = <<S, H>> THEN {"matrix"} ELSE {})
Accepted(dims, H, S) == Forms(dims, H, S) # {}
\* number of the cell that scenario s, step t reads
CellOf(form, H, s, t) == CASE form = "scalar" -> 1
                           [] form = "row" -> t
                           [] form = "column" -> s
                           [] form = "matrix" -> (s - 1) * H + t
Meaning(dims, H, S) == LET f == CHOOSE x \in Forms(dims, H, S) : TRUE
                       IN [s \in 1..S |-> [t \in 1..H |-> CellOf(f, H, s, t)]]
\* when a shape can be read in two ways both give the same values
Unambiguous(dims, H, S) == \A f, g \in Forms(dims, H, S) : \A s \in 1..S, t \in 1..H : CellOf(f, H, s, t) = CellOf(g, H, s, t)
=============================================================================
