------------------------------- MODULE Analyzer -------------------------------
(* What the analyzer must report for a study with a result.                  *)
(* A = [S, H, nets, cons, prod, stor, link, conv]; element matrices are      *)
(* [scn][t] fixed point numbers times 100, in study order.                   *)
(*   nets : << [name, nodes] >>                                              *)
(*   cons : [net, node, name, cost, asked, given]                            *)
(*   prod : [net, node, name, cost, avail, used]                             *)
(*   stor : [net, node, name, cost, cap, lvl, fin, in, fout, out, init, eff] *)
(*   link : [net, node, dest, cost, avail, used]                             *)
(*   conv : [name, net, node, cost, max, flow, srcs << [net, node, ratio, flow] >>] *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

Cells(A) == (1..A.S) \X (1..A.H)
SumSeq(f(_), n) == FoldFunction(LAMBDA a, b : a + b, 0, [i \in 1..n |-> f(i)])
Where(s, P(_)) == SelectSeq(s, P)
Has(s, x) == \E i \in DOMAIN s : s[i] = x

(* ------------------------------------------------------------------ tables *)
(* one row <<network, node, element, scn, t, values>> per element and cell;  *)
(* values in alphabetical order of the column names                          *)
Kinds == {"cons", "prod", "stor", "link", "src", "dst"}
Table(A, k) ==
  LET E == CASE k = "cons" -> A.cons [] k = "prod" -> A.prod [] k = "stor" -> A.stor [] k = "link" -> A.link [] OTHER -> A.conv
      V(e, s, t) == CASE k = "cons" -> <<e.asked[s][t], e.cost[s][t], e.given[s][t]>>
                      [] k = "prod" -> <<e.avail[s][t], e.cost[s][t], e.used[s][t]>>
                      [] k = "link" -> <<e.avail[s][t], e.cost[s][t], e.used[s][t]>>
                      [] k = "stor" -> <<e.lvl[s][t], e.cost[s][t], e.eff[s][t], e.in[s][t], e.out[s][t], e.init, e.cap[s][t], e.fin[s][t], e.fout[s][t]>>
                      [] k = "dst" -> <<e.cost[s][t], e.flow[s][t], e.max[s][t]>>
      N(e) == IF k = "link" THEN e.dest ELSE e.name
  IN IF k # "src"
     THEN {<<E[i].net, E[i].node, N(E[i]), c[1] - 1, c[2] - 1, V(E[i], c[1], c[2])>> : i \in DOMAIN E, c \in Cells(A)}
     ELSE UNION {{<<E[i].srcs[j].net, E[i].srcs[j].node, E[i].name, c[1] - 1, c[2] - 1,
                   <<E[i].srcs[j].flow[c[1]][c[2]], (E[i].max[c[1]][c[2]] * 100) \div E[i].srcs[j].ratio[c[1]][c[2]], E[i].srcs[j].ratio[c[1]][c[2]]>>>>
                   : j \in DOMAIN E[i].srcs, c \in Cells(A)} : i \in DOMAIN E}

(* ------------------------------------------------------------------ counts and node lists *)
Count(s, n, x) == Cardinality({i \in DOMAIN s : s[i].net = n /\ s[i].node = x})
CountOf(A, n, x) == <<Count(A.cons, n, x), Count(A.prod, n, x), Count(A.stor, n, x), Count(A.link, n, x),
                      Cardinality({i \in DOMAIN A.conv : \E j \in DOMAIN A.conv[i].srcs : A.conv[i].srcs[j].net = n /\ A.conv[i].srcs[j].node = x}),
                      Count(A.conv, n, x)>>
AddVec(u, v) == [i \in 1..6 |-> u[i] + v[i]]
CountNet(A, m) == FoldSeq(LAMBDA x, acc : AddVec(acc, CountOf(A, m.name, x)), <<0, 0, 0, 0, 0, 0>>, m.nodes)
CountAll(A) == FoldSeq(LAMBDA m, acc : AddVec(acc, CountNet(A, m)), <<0, 0, 0, 0, 0, 0>>, A.nets)

(* ------------------------------------------------------------------ C16 cost of the dispatch, times 10000 *)
Here(e, n, x) == e.net = n /\ (x = "*" \/ e.node = x)
CostAt(A, n, x, s, t) ==
    SumSeq(LAMBDA i : IF Here(A.cons[i], n, x) THEN (A.cons[i].asked[s][t] - A.cons[i].given[s][t]) * A.cons[i].cost[s][t] ELSE 0, Len(A.cons))
  + SumSeq(LAMBDA i : IF Here(A.prod[i], n, x) THEN A.prod[i].used[s][t] * A.prod[i].cost[s][t] ELSE 0, Len(A.prod))
  + SumSeq(LAMBDA i : IF Here(A.stor[i], n, x) THEN A.stor[i].lvl[s][t] * A.stor[i].cost[s][t] ELSE 0, Len(A.stor))
  + SumSeq(LAMBDA i : IF Here(A.link[i], n, x) THEN A.link[i].used[s][t] * A.link[i].cost[s][t] ELSE 0, Len(A.link))
  + SumSeq(LAMBDA i : IF Here(A.conv[i], n, x) THEN A.conv[i].flow[s][t] * A.conv[i].cost[s][t] ELSE 0, Len(A.conv))
CostNode(A, n, x) == [s \in 1..A.S |-> [t \in 1..A.H |-> CostAt(A, n, x, s, t)]]
MAdd(M, N) == [s \in DOMAIN M |-> [t \in DOMAIN M[s] |-> M[s][t] + N[s][t]]]
Zero(A) == [s \in 1..A.S |-> [t \in 1..A.H |-> 0]]
\* by definition the sum over the nodes of the network, and over the networks
CostNet(A, m) == FoldSeq(LAMBDA x, acc : MAdd(acc, CostNode(A, m.name, x)), Zero(A), m.nodes)
CostAll(A) == FoldSeq(LAMBDA m, acc : MAdd(acc, CostNet(A, m)), Zero(A), A.nets)

(* ------------------------------------------------------------------ C17 *)
Balance(A, n, x) == [s \in 1..A.S |-> [t \in 1..A.H |->
    SumSeq(LAMBDA i : IF A.link[i].net = n THEN (IF A.link[i].node = x THEN A.link[i].used[s][t] ELSE 0)
                                                - (IF A.link[i].dest = x THEN A.link[i].used[s][t] ELSE 0) ELSE 0, Len(A.link))]]

(* ------------------------------------------------------------------ C18 *)
Rac(A, n) == [s \in 1..A.S |-> [t \in 1..A.H |->
    SumSeq(LAMBDA i : IF A.prod[i].net = n THEN A.prod[i].avail[s][t] - A.prod[i].used[s][t] ELSE 0, Len(A.prod))
  - SumSeq(LAMBDA i : IF A.cons[i].net = n THEN A.cons[i].asked[s][t] - A.cons[i].given[s][t] ELSE 0, Len(A.cons))]]

(* ------------------------------------------------------------------ C15 queries *)
(* selector = [col, form, v]: col network | node | scn | t | one of Kinds;   *)
(* form "all" | "one" (v = <<value>>) | "list" (v = values) | "slice"        *)
(* (v = <<lo, hi, step>>, -1 where open)                                     *)
SliceVals(v, size) == LET lo == IF v[1] = -1 THEN 0 ELSE v[1]
                          hi == IF v[2] = -1 THEN size ELSE v[2]
                          st == IF v[3] = -1 THEN 1 ELSE v[3]
                      IN {k \in lo..(hi - 1) : (k - lo) % st = 0}
Size(A, col) == IF col = "scn" THEN A.S ELSE A.H
Names(A, sel) == IF sel.form = "slice" THEN SliceVals(sel.v, Size(A, sel.col)) ELSE {sel.v[i] : i \in DOMAIN sel.v}
Everything(sel) == sel.form = "all" \/ (sel.form = "list" /\ sel.v = <<>>)
Match(A, sel, x) == Everything(sel) \/ x \in Names(A, sel)
Alone(A, sel) == ~Everything(sel) /\ Cardinality(Names(A, sel)) = 1
KindOf(q) == LET I == {i \in DOMAIN q : q[i].col \in Kinds} IN IF I = {} THEN "" ELSE q[CHOOSE i \in I : TRUE].col
Field(sel, row) == CASE sel.col = "network" -> row[1] [] sel.col = "node" -> row[2] [] sel.col = "scn" -> row[4] [] sel.col = "t" -> row[5] [] OTHER -> row[3]
Rows(A, q) == {r \in Table(A, KindOf(q)) : \A i \in DOMAIN q : Match(A, q[i], Field(q[i], r))}
\* how many leading selectors disappear from the index
RECURSIVE Lead(_, _, _)
Lead(A, q, i) == IF i > Len(q) THEN i - 1 ELSE IF Alone(A, q[i]) THEN Lead(A, q, i + 1) ELSE i - 1
Column(sel) == IF sel.col \notin Kinds THEN sel.col ELSE IF sel.col = "link" THEN "dest" ELSE "name"
Answer(A, q) == LET R == Rows(A, q)
                    k == Lead(A, q, 1)
                    keep == SubSeq(q, k + 1, Len(q))
                IN [names |-> [i \in DOMAIN keep |-> Column(keep[i])],
                    rows |-> {<<[i \in DOMAIN keep |-> Field(keep[i], r)], r[6]>> : r \in R}]
=============================================================================
