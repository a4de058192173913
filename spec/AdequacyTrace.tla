--------------------------- MODULE AdequacyTrace ---------------------------
(* Validates recorded local solves against Adequacy.                         *)
(* Each record of the JSON file DATA is one solved study:                    *)
(*   id, I (instance), outcome ("ok" | exception text), feasible, struct,    *)
(*   O (result matrices), X (witness matrices or absent), Y (prices)         *)
(* One behaviour per (record, scenario); one transition per time step, with  *)
(* the storage levels as state. Failing clauses are printed as @@FAIL lines; *)
(* every behaviour ends in a printed @@DONE.                                 *)
EXTENDS Adequacy, Json, IOUtils, TLC, TLCExt, Functions

Data == JsonDeserialize(IOEnv.DATA)
Prop == IOEnv.PROP

VARIABLES c, s, t, stock, xstock, cost, xcost, act, dual, xok
vars == <<c, s, t, stock, xstock, cost, xcost, act, dual, xok>>

Rec == Data[c]
I == Rec.I
Fail(clause, where) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|scn=" \o ToString(s - 1)
                               \o " t=" \o ToString(t - 1) \o " " \o ToString(where))
\* evaluated as values (never as branching actions): report every failing clause
Report(bad) == (\A b \in bad : Fail(b[1], b)) = TRUE
Check(ok, clause, where) == (IF ok THEN TRUE ELSE Fail(clause, where)) = TRUE

Init == /\ c \in DOMAIN Data
        /\ s \in 1..(IF Rec.usable THEN I.S ELSE 1)
        /\ t = 0
        /\ stock = <<>> /\ xstock = <<>> /\ cost = WZero /\ xcost = WZero /\ act = WZero /\ dual = WZero /\ xok = TRUE

(* the call itself: a result is returned exactly when the study is feasible, *)
(* and the result has the elements of the study, in order, with full shape   *)
Begin == /\ t = 0
         /\ t' = IF Rec.usable THEN 1 ELSE -1
         /\ IF Prop = "C07"
            THEN Check((Rec.outcome = "ok") = Rec.feasible, "outcome", <<Rec.outcome, Rec.feasible>>)
            ELSE Check(Rec.outcome = "ok", "raised", Rec.outcome)
         /\ IF Rec.outcome = "ok" /\ Prop # "C07"
            THEN Check(Rec.observed = Rec.expected, "structure", <<Rec.observed, Rec.expected>>)
              /\ Check(Rec.shape, "shape", "result matrices")
            ELSE TRUE
         /\ (IF Rec.usable THEN TRUE ELSE PrintT("@@DONE|" \o Rec.id \o "|" \o ToString(s))) = TRUE
         /\ stock' = IF Rec.usable THEN InitLevels(I) ELSE <<>>
         /\ xstock' = IF Rec.usable THEN InitLevels(I) ELSE <<>>
         /\ UNCHANGED <<c, s, cost, xcost, act, dual, xok>>

Step == /\ t > 0 /\ t <= I.H
        /\ LET D == StepOf(Rec.O, s, t) IN
           /\ IF Prop = "C01" THEN Report(BalanceBad(I, D, Rec.tol)) ELSE TRUE
           /\ IF Prop = "C02" THEN Report(BoundsBad(I, D, s, t, Rec.tol)) ELSE TRUE
           /\ IF Prop = "C03" THEN Report(StorageBad(I, D, s, t, stock, Rec.tol)) ELSE TRUE
           /\ IF Prop = "C04" THEN Report(ConvertBad(I, D, s, t, Rec.tol)) ELSE TRUE
           /\ stock' = D.lvl
           /\ IF Prop \in {"C06", "ALL"} THEN Report(BalanceBad(I, D, Rec.tol) \cup BoundsBad(I, D, s, t, Rec.tol)
                                   \cup StorageBad(I, D, s, t, stock, Rec.tol) \cup ConvertBad(I, D, s, t, Rec.tol)) ELSE TRUE
           /\ IF Prop \in {"C05", "C06", "ALL"} /\ Rec.witness
              THEN LET X == StepOf(Rec.X, s, t) IN
                   /\ cost' = WAdd(cost, StepCost(I, D, s, t))
                   /\ xcost' = WAdd(xcost, StepCost(I, X, s, t))
                   /\ act' = WAdd(act, WAdd(StepActivity(I, D, s, t), StepActivity(I, X, s, t)))
                   /\ xstock' = X.lvl
                   /\ xok' = (xok /\ StepOK(I, X, s, t, xstock, Rec.xtol))
                   /\ dual' = IF Rec.priced THEN WAdd(dual, DualStep(I, Rec.Y[s], s, t)) ELSE dual
              ELSE UNCHANGED <<cost, xcost, act, xstock, xok, dual>>
        /\ t' = t + 1
        /\ UNCHANGED <<c, s>>

(* C05: the verified witness X must not be cheaper than the result, up to    *)
(* 2^-15 of the cost volume moved plus a rounding allowance                  *)
SlackW == WAdd(WNorm(0, act[1], act[2]), Rec.round)
End == /\ t > 0 /\ t = I.H + 1
       /\ t' = -1
       /\ IF Prop \in {"C05", "C06", "ALL"} /\ Rec.witness
          THEN /\ (IF xok THEN TRUE ELSE PrintT("@@XBAD|" \o Rec.id)) = TRUE
               \* C06: X is the same scenario solved alone: the costs agree both ways
               /\ IF Prop = "C06" THEN Check(WLeq(xcost, WAdd(cost, SlackW)), "cheaper than alone", <<"cost", cost, "alone", xcost>>) ELSE TRUE
               /\ Check(~xok \/ WLeq(cost, WAdd(xcost, SlackW)), "not optimal", <<"cost", cost, "cheaper", xcost>>)
               /\ (IF xok /\ Rec.priced /\ WLeq(WScale(cost, I.E), WAdd(dual, WScale(SlackW, I.E)))
                   THEN PrintT("@@CERT|" \o Rec.id) ELSE TRUE) = TRUE
          ELSE TRUE
       /\ PrintT("@@DONE|" \o Rec.id \o "|" \o ToString(s))
       /\ UNCHANGED <<c, s, stock, xstock, cost, xcost, act, dual, xok>>

Next == Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
