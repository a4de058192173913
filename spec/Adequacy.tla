------------------------------ MODULE Adequacy ------------------------------
(* Meaning of an adequacy study.                                             *)
(*                                                                           *)
(* An instance I is a record                                                 *)
(*   H, S     horizon and number of scenarios                                *)
(*   nn       number of (network, node) pairs, numbered 1..nn                *)
(*   E, R     fixed-point scale of efficiencies and converter ratios         *)
(*   cons     << [node, asked, cost] >>                                      *)
(*   prod     << [node, avail, cost] >>                                      *)
(*   link     << [src, dst, avail, cost] >>                                  *)
(*   stor     << [node, cap, fin, fout, eff, cost, init] >>                  *)
(*   conv     << [dst, max, cost, srcs : << [node, ratio] >>] >>             *)
(* where every quantity/cost is a matrix indexed [scenario][step] of         *)
(* fixed-point integers.  A dispatch D of one step is a record of sequences  *)
(*   given (cons), used (prod), flow (link), lvl/in/out (stor),              *)
(*   cdst (conv), csrc (conv -> sources).                                    *)
(* The state of the system between two steps is the level of every storage.  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Wide

Sum(f(_), S) == MapThenSumSet(f, S)
Absv(x) == IF x < 0 THEN -x ELSE x

---------------------------------------------------------------------------
(* C01: net energy arriving at node n minus the consumption given there *)
NodeNet(I, D, n) ==
    LET srcs == {p \in UNION {{<<v, k>> : k \in DOMAIN I.conv[v].srcs} : v \in DOMAIN I.conv} :
                    I.conv[p[1]].srcs[p[2]].node = n}
    IN    Sum(LAMBDA i : D.used[i], {i \in DOMAIN I.prod : I.prod[i].node = n})
        + Sum(LAMBDA i : D.out[i] - D.in[i], {i \in DOMAIN I.stor : I.stor[i].node = n})
        + Sum(LAMBDA i : D.flow[i], {i \in DOMAIN I.link : I.link[i].dst = n})
        - Sum(LAMBDA i : D.flow[i], {i \in DOMAIN I.link : I.link[i].src = n})
        + Sum(LAMBDA i : D.cdst[i], {i \in DOMAIN I.conv : I.conv[i].dst = n})
        - Sum(LAMBDA p : D.csrc[p[1]][p[2]], srcs)
        - Sum(LAMBDA i : D.given[i], {i \in DOMAIN I.cons : I.cons[i].node = n})
BalanceBad(I, D, tol) == {<<"balance", n>> : n \in {m \in 1..I.nn : Absv(NodeNet(I, D, m)) > tol}}

(* C02: limits *)
Within(x, hi, tol) == x >= -tol /\ x <= hi + tol
BoundsBad(I, D, s, t, tol) ==
      {<<"given", i>> : i \in {j \in DOMAIN I.cons : ~Within(D.given[j], I.cons[j].asked[s][t], tol)}}
 \cup {<<"used", i>>  : i \in {j \in DOMAIN I.prod : ~Within(D.used[j], I.prod[j].avail[s][t], tol)}}
 \cup {<<"flow", i>>  : i \in {j \in DOMAIN I.link : ~Within(D.flow[j], I.link[j].avail[s][t], tol)}}
 \cup {<<"level", i>> : i \in {j \in DOMAIN I.stor : ~Within(D.lvl[j], I.stor[j].cap[s][t], tol)}}
 \cup {<<"flow_in", i>>  : i \in {j \in DOMAIN I.stor : ~Within(D.in[j], I.stor[j].fin[s][t], tol)}}
 \cup {<<"flow_out", i>> : i \in {j \in DOMAIN I.stor : ~Within(D.out[j], I.stor[j].fout[s][t], tol)}}
 \cup {<<"conv_dest", i>> : i \in {j \in DOMAIN I.conv : ~Within(D.cdst[j], I.conv[j].max[s][t], tol)}}
 \cup {<<"conv_src", p[1], p[2]>> : p \in {q \in UNION {{<<v, k>> : k \in DOMAIN I.conv[v].srcs} : v \in DOMAIN I.conv} :
          \/ D.csrc[q[1]][q[2]] < -tol
          \/ ~WLeq(WMul(D.csrc[q[1]][q[2]], I.conv[q[1]].srcs[q[2]].ratio[s][t]),
                   WMul(I.conv[q[1]].max[s][t] + 2 * tol, I.R))}}

(* C03: storage recurrence, prev being the levels before the step *)
StorageBad(I, D, s, t, prev, tol) ==
    {<<"storage", i>> : i \in {j \in DOMAIN I.stor :
        ~WAbsLeq(WSub(WMul(D.lvl[j] - prev[j] + D.out[j], I.E), WMul(D.in[j], I.stor[j].eff[s][t])),
                 WMul(4 * tol, I.E))}}

(* C04: every source is drawn in proportion *)
ConvertBad(I, D, s, t, tol) ==
    {<<"convert", p[1], p[2]>> : p \in {q \in UNION {{<<v, k>> : k \in DOMAIN I.conv[v].srcs} : v \in DOMAIN I.conv} :
        LET r == I.conv[q[1]].srcs[q[2]].ratio[s][t]
        IN ~WAbsLeq(WSub(WMul(D.cdst[q[1]], I.R), WMul(D.csrc[q[1]][q[2]], r)), WMul(2 * tol, I.R + r))}}

(* a step from stored levels prev is allowed *)
StepOK(I, D, s, t, prev, tol) ==
    BalanceBad(I, D, tol) \cup BoundsBad(I, D, s, t, tol) \cup StorageBad(I, D, s, t, prev, tol)
        \cup ConvertBad(I, D, s, t, tol) = {}

(* C05: cost of one step, wide *)
StepCost(I, D, s, t) ==
    WAdd(WSum(LAMBDA i : WMul(I.cons[i].cost[s][t], I.cons[i].asked[s][t] - D.given[i]), DOMAIN I.cons),
    WAdd(WSum(LAMBDA i : WMul(I.prod[i].cost[s][t], D.used[i]), DOMAIN I.prod),
    WAdd(WSum(LAMBDA i : WMul(I.link[i].cost[s][t], D.flow[i]), DOMAIN I.link),
    WAdd(WSum(LAMBDA i : WMul(I.stor[i].cost[s][t], D.lvl[i]), DOMAIN I.stor),
         WSum(LAMBDA i : WMul(I.conv[i].cost[s][t], D.cdst[i]), DOMAIN I.conv)))))

(* the same with absolute values: the magnitude numerical noise is judged by *)
StepActivity(I, D, s, t) ==
    WAdd(WSum(LAMBDA i : WMul(Absv(I.cons[i].cost[s][t]), Absv(I.cons[i].asked[s][t] - D.given[i])), DOMAIN I.cons),
    WAdd(WSum(LAMBDA i : WMul(Absv(I.prod[i].cost[s][t]), Absv(D.used[i])), DOMAIN I.prod),
    WAdd(WSum(LAMBDA i : WMul(Absv(I.link[i].cost[s][t]), Absv(D.flow[i])), DOMAIN I.link),
    WAdd(WSum(LAMBDA i : WMul(Absv(I.stor[i].cost[s][t]), Absv(D.lvl[i])), DOMAIN I.stor),
         WSum(LAMBDA i : WMul(Absv(I.conv[i].cost[s][t]), Absv(D.cdst[i])), DOMAIN I.conv)))))

InitLevels(I) == [i \in DOMAIN I.stor |-> I.stor[i].init]

(* Dispatch of (scenario, step) out of recorded result matrices *)
StepOf(O, s, t) ==
    [given |-> [i \in DOMAIN O.given |-> O.given[i][s][t]],
     used  |-> [i \in DOMAIN O.used |-> O.used[i][s][t]],
     flow  |-> [i \in DOMAIN O.flow |-> O.flow[i][s][t]],
     lvl   |-> [i \in DOMAIN O.lvl |-> O.lvl[i][s][t]],
     in    |-> [i \in DOMAIN O.in |-> O.in[i][s][t]],
     out   |-> [i \in DOMAIN O.out |-> O.out[i][s][t]],
     cdst  |-> [i \in DOMAIN O.cdst |-> O.cdst[i][s][t]],
     csrc  |-> [i \in DOMAIN O.csrc |-> [k \in DOMAIN O.csrc[i] |-> O.csrc[i][k][s][t]]]]

---------------------------------------------------------------------------
(* Weak duality: a lower bound on the cost of every dispatch of scenario s,  *)
(* from arbitrary prices y[node][step], z[storage][step], w[conv][src][step] *)
(* (fixed point like costs). Used to certify optimality.                     *)
RedMin(rc, hi) == IF WNonNeg(rc) THEN WZero ELSE WMul(WInt(rc), hi)
DualStep(I, Y, s, t) ==
    LET y(n) == Y.y[n][t]
        z(i) == Y.z[i][t]
        zn(i) == IF t < I.H THEN Y.z[i][t + 1] ELSE 0
        load(n) == Sum(LAMBDA i : I.cons[i].asked[s][t], {i \in DOMAIN I.cons : I.cons[i].node = n})
        sc(x) == WMul(x, I.E)     \* reduced costs are scaled by E (= R)
    IN WAdd(WScale(WSum(LAMBDA n : WMul(load(n), y(n)), 1..I.nn), I.E),
       WAdd(IF t = 1 THEN WScale(WSum(LAMBDA i : WMul(I.stor[i].init, z(i)), DOMAIN I.stor), I.E) ELSE WZero,
       WAdd(WSum(LAMBDA i : RedMin(sc(I.cons[i].cost[s][t] - y(I.cons[i].node)), I.cons[i].asked[s][t]), DOMAIN I.cons),
       WAdd(WSum(LAMBDA i : RedMin(sc(I.prod[i].cost[s][t] - y(I.prod[i].node)), I.prod[i].avail[s][t]), DOMAIN I.prod),
       WAdd(WSum(LAMBDA i : RedMin(sc(I.link[i].cost[s][t] + y(I.link[i].src) - y(I.link[i].dst)), I.link[i].avail[s][t]), DOMAIN I.link),
       WAdd(WSum(LAMBDA i : RedMin(WAdd(sc(y(I.stor[i].node)), WMul(I.stor[i].eff[s][t], z(i))), I.stor[i].fin[s][t]), DOMAIN I.stor),
       WAdd(WSum(LAMBDA i : RedMin(sc(-y(I.stor[i].node) - z(i)), I.stor[i].fout[s][t]), DOMAIN I.stor),
       WAdd(WSum(LAMBDA i : RedMin(sc(I.stor[i].cost[s][t] - z(i) + zn(i)), I.stor[i].cap[s][t]), DOMAIN I.stor),
       WAdd(WSum(LAMBDA i : RedMin(sc(I.conv[i].cost[s][t] - y(I.conv[i].dst)
                                      + Sum(LAMBDA k : Y.w[i][k][t], DOMAIN I.conv[i].srcs)), I.conv[i].max[s][t]), DOMAIN I.conv),
            WSum(LAMBDA p : RedMin(WSub(sc(y(I.conv[p[1]].srcs[p[2]].node)),
                                        WMul(I.conv[p[1]].srcs[p[2]].ratio[s][t], Y.w[p[1]][p[2]][t])),
                                   I.conv[p[1]].srcs[p[2]].lim[s][t]),
                 UNION {{<<v, k>> : k \in DOMAIN I.conv[v].srcs} : v \in DOMAIN I.conv}))))))))))
=============================================================================
