----------------------------- MODULE AnalyzerTrace -----------------------------
(* Recorded answers of the real analyzer against Analyzer. Records:          *)
(*   id, A, asks : << [ask, ...] >>, answered one per transition             *)
(* ask "table" [kind, rows], "count" [net, node, v], "nodes" [net, v],       *)
(*     "cost" | "balance" [net, node, m], "rac" [net, m],                    *)
(*     "again" [refused] (a selector named twice),                           *)
(*     "query" [q, names, rows], "same" [v]                                  *)
(* Every ask has outcome "ok" or the exception.                              *)
EXTENDS Analyzer, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l, bal
Rec == Data[c]
A == Rec.A
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|ask " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1 /\ bal = <<>>
Net(n) == CHOOSE m \in ToSet(A.nets) : m.name = n
Few(X) == IF Cardinality(X) > 3 THEN {CHOOSE x \in X : TRUE} ELSE X
Judge(e) ==
  CASE e.ask = "table" -> LET want == Table(A, e.kind)  got == ToSet(e.rows) IN
         /\ Check(got = want, "table " \o e.kind, <<"missing", Few(want \ got), "extra", Few(got \ want)>>)
         /\ Check(Len(e.rows) = Cardinality(want), "row count of table " \o e.kind, <<Len(e.rows), Cardinality(want)>>)
    [] e.ask = "count" -> LET want == IF e.net = "*" THEN CountAll(A) ELSE IF e.node = "*" THEN CountNet(A, Net(e.net)) ELSE CountOf(A, e.net, e.node)
                          IN Check(e.v = want, "element count", <<e.net, e.node, e.v, want>>)
    [] e.ask = "nodes" -> Check(e.v = Net(e.net).nodes, "node list", <<e.net, e.v>>)
    [] e.ask = "cost" -> LET want == IF e.net = "*" THEN CostAll(A) ELSE IF e.node = "*" THEN CostNet(A, Net(e.net)) ELSE CostNode(A, e.net, e.node)
                         IN Check(e.m = want, "cost", <<e.net, e.node, e.m, want>>)
    [] e.ask = "balance" -> Check(e.m = Balance(A, e.net, e.node), "balance", <<e.net, e.node, e.m, Balance(A, e.net, e.node)>>)
    [] e.ask = "zero" -> Check(FoldSeq(LAMBDA M, acc : MAdd(acc, M), Zero(A), bal) = Zero(A), "balances do not sum to zero", <<e.net, bal>>)
    [] e.ask = "rac" -> Check(e.m = Rac(A, e.net), "remaining capacity", <<e.net, e.m, Rac(A, e.net)>>)
    [] e.ask = "query" -> LET want == Answer(A, e.q)  got == ToSet(e.rows) IN
         /\ Check(Len(e.rows) = Cardinality(want.rows), "query row count", <<e.q, Len(e.rows), Cardinality(want.rows)>>)
         /\ Check(want.rows = {} \/ Len(e.rows) = 0 \/ e.names = want.names, "query index", <<e.q, e.names, want.names>>)
         /\ Check(Len(e.rows) # Cardinality(want.rows) \/ e.names # want.names \/ got = want.rows, "query rows", <<e.q, "missing", Few(want.rows \ got), "extra", Few(got \ want.rows)>>)
    [] e.ask = "again" -> Check(e.refused, "selector named twice, answered", e.what)
    [] e.ask = "same" -> Check(e.v, "analyzer modified", e.ask)
Step == /\ l <= Len(Rec.asks)
        /\ LET e == Rec.asks[l] IN
           /\ Check(e.outcome = "ok", "raised", <<e.ask, e.what, e.outcome>>)
           /\ (IF e.outcome = "ok" THEN Judge(e) ELSE TRUE)
           \* balances of the network being summed
           /\ bal' = IF e.ask = "balance" /\ e.outcome = "ok" THEN (IF e.first THEN <<e.m>> ELSE Append(bal, e.m)) ELSE bal
        /\ l' = l + 1 /\ c' = c
End == /\ l = Len(Rec.asks) + 1 /\ l' = l + 1 /\ PrintT("@@DONE|" \o Rec.id) /\ UNCHANGED <<c, bal>>
Spec == Init /\ [][Step \/ End]_<<c, l, bal>>
=============================================================================
