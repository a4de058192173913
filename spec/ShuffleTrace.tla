---------------------------- MODULE ShuffleTrace ----------------------------
(* Sessions on the real shuffler. Steps:                                     *)
(*  [act: "data", name, rows]           raw timeline                         *)
(*  [act: "pipe", name, frame, ops, outcome]                                 *)
(*  [act: "shuffle", nb, names, got, calls, plan]  got: rows per name (same  *)
(*      order as names); calls: sampler calls [lo, hi, n]; scripted: the     *)
(*      sampler is the function Script(how); seen: calls are all observed    *)
(*  [act: "spread", a, b, m]  indices of rows sampled together: every pair   *)
(*  [act: "apart", sets]      rows of random pipelines: never the same       *)
(*  intact after every step                                                  *)
EXTENDS Shuffle, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l, tls
Rec == Data[c]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|step " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Fr(x) == [rows |-> x.rows, cells |-> Elems(x.cells)]
Put(n, v) == [k \in DOMAIN tls \cup {n} |-> IF k = n THEN v ELSE tls[k]]
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x.d>> \o Listing(S \ {x})
Init == c \in DOMAIN Data /\ l = 1 /\ tls = <<>>

Step ==
  /\ l <= Len(Rec.steps)
  /\ LET e == Rec.steps[l] IN
     /\ CASE e.act = "data" ->
               Check(e.outcome = "ok", "raw data rejected", e.outcome) /\ tls' = Put(e.name, [kind |-> "raw", rows |-> e.rows])
          [] e.act = "pipe" ->
               LET f == Fr(e.frame) ok == Accepts({x.n : x \in f.cells}, e.ops) IN
               /\ Check(e.outcome = (IF ok THEN "ok" ELSE "ValueError"), IF ok THEN "sound pipeline rejected" ELSE "unfit pipeline registered", <<e.outcome, e.ops>>)
               /\ tls' = (IF ok THEN Put(e.name, [kind |-> "pipe", rows |-> Listing(OutRows(Run(f, e.ops)))]) ELSE tls)
          [] e.act = "shuffle" ->
               /\ Check(e.outcome = "ok", "shuffle failed", e.outcome)
               /\ e.outcome = "ok" =>
                  /\ Check(Elems(e.names) = DOMAIN tls /\ Len(e.names) = Cardinality(DOMAIN tls), "names", <<e.names, DOMAIN tls>>)
                  /\ \A k \in DOMAIN e.names : e.names[k] \in DOMAIN tls =>
                       /\ Check(Sampled(tls[e.names[k]], e.nb, e.got[k]), "not rows of the timeline", <<e.names[k], tls[e.names[k]], e.got[k]>>)
                       /\ Check(~e.scripted \/ Len(e.got[k]) # e.nb \/ Selected(tls[e.names[k]], Script(e.how, Len(tls[e.names[k]].rows), e.nb), e.got[k]), "not the rows selected by the sampler", <<e.names[k], e.how, e.got[k]>>)
                  /\ Check(\A k \in DOMAIN e.calls : e.calls[k].lo = 0 /\ e.calls[k].n = e.nb, "sampler arguments", e.calls)
                  \* one draw per timeline over all its scenarios
                  /\ Check(~e.scripted \/ ~e.seen \/ \A h \in {Len(tls[n].rows) : n \in DOMAIN tls} \cup {e.calls[k].hi : k \in DOMAIN e.calls} :
                             Cardinality({k \in DOMAIN e.calls : e.calls[k].hi = h}) = Cardinality({n \in DOMAIN tls : Len(tls[n].rows) = h}), "sampler range", e.calls)
               /\ tls' = tls
          [] e.act = "spread" ->
               /\ Check({<<e.a[k], e.b[k]>> : k \in DOMAIN e.a} = (1..e.ma) \X (1..e.mb), "selections are not independent", <<e.what, SubSeq(e.a, 1, 30), SubSeq(e.b, 1, 30)>>)
               /\ tls' = tls
          [] e.act = "apart" ->
               /\ Check(\A i, j \in DOMAIN e.sets : i # j => Elems(e.sets[i]) \cap Elems(e.sets[j]) = {}, "random rows repeated", e.what)
               /\ tls' = tls
     /\ Check(e.intact, "registered data modified", e.act)
  /\ l' = l + 1 /\ c' = c
End == /\ l = Len(Rec.steps) + 1 /\ l' = l + 1
       /\ PrintT("@@DONE|" \o Rec.id) /\ UNCHANGED <<c, tls>>
Spec == Init /\ [][Step \/ End]_<<c, l, tls>>
=============================================================================
