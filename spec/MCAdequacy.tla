----------------------------- MODULE MCAdequacy -----------------------------
(* Exhaustive small adequacy studies. Every behaviour of every instance of   *)
(* the chosen family is explored: the state is the stored level of every     *)
(* storage plus the cost so far, a step is any integer dispatch that         *)
(* Adequacy allows. Checked on the model: no behaviour is cheaper than Best, *)
(* energy is conserved globally, and levels stay within capacity. Each       *)
(* instance and its best dispatch (or its infeasibility) is printed; the     *)
(* real optimizer is then run on exactly these instances.                    *)
EXTENDS Adequacy, Json, IOUtils, TLC, SequencesExt

Cfg == JsonDeserialize(IOEnv.CFG)      \* [fam, mod, res]

M(q) == <<q>>                          \* a one-scenario matrix from a row
Row(H, x) == M([u \in 1..H |-> x])
Mk(H, nn, cons, prod, link, stor, conv) ==
    [H |-> H, S |-> 1, nn |-> nn, E |-> 2, R |-> 2, cons |-> cons, prod |-> prod, link |-> link, stor |-> stor, conv |-> conv]
ConsE(n, q, c) == [node |-> n, asked |-> M(q), cost |-> M(c)]
ProdE(n, q, c) == [node |-> n, avail |-> M(q), cost |-> M(c)]
LinkE(a, b, q, c) == [src |-> a, dst |-> b, avail |-> M(q), cost |-> M(c)]
StorE(n, H, cap, fin, fout, eff, cost, init) ==
    [node |-> n, cap |-> M(cap), fin |-> Row(H, fin), fout |-> Row(H, fout), eff |-> Row(H, eff), cost |-> Row(H, cost), init |-> init]

Keep(p) == (FoldLeft(LAMBDA a, b : (a * 7 + b + 3) % 9973, Cfg.salt, p) % Cfg.mod) = Cfg.res

Merit == {Mk(1, 1, <<ConsE(1, <<p[1]>>, <<p[2]>>)>>, <<ProdE(1, <<p[3]>>, <<p[4]>>), ProdE(1, <<p[5]>>, <<p[6]>>)>>, <<>>, <<>>, <<>>) :
            p \in {x \in (0..2) \X {0, 2} \X (0..2) \X {-1, 0, 1, 3} \X (0..2) \X {0, 1, 3} : Keep(x)}}
Grid == {Mk(1, 2, <<ConsE(1, <<p[1]>>, <<5>>), ConsE(2, <<p[2]>>, <<4>>)>>,
            <<ProdE(1, <<p[3]>>, <<1>>), ProdE(2, <<p[4]>>, <<p[5]>>)>>,
            <<LinkE(1, 2, <<p[6]>>, <<p[7]>>), LinkE(2, 1, <<p[8]>>, <<0>>)>>, <<>>, <<>>) :
            p \in {x \in (0..1) \X (0..2) \X (0..2) \X (0..1) \X {0, 3} \X (0..1) \X {0, 1, 4} \X (0..1) : Keep(x)}}
Ring == {Mk(1, 3, <<ConsE(1, <<p[1]>>, <<6>>), ConsE(2, <<1>>, <<p[8]>>)>>, <<ProdE(3, <<p[2]>>, <<p[3]>>), ProdE(2, <<p[4]>>, <<2>>)>>,
            <<LinkE(1, 2, <<1>>, <<p[5]>>), LinkE(2, 3, <<p[6]>>, <<0>>), LinkE(3, 1, <<1>>, <<1>>), LinkE(3, 2, <<p[7]>>, <<1>>),
              LinkE(2, 1, <<1>>, <<p[5]>>)>>, <<>>, <<>>) :
            p \in {x \in (0..2) \X (0..2) \X {0, 3} \X (0..1) \X {0, 2} \X (0..1) \X (0..1) \X {1, 5} : Keep(x)}}
Store == {Mk(2, 1, <<ConsE(1, <<p[1], p[2]>>, <<4, p[3]>>)>>, <<ProdE(1, <<p[4], p[5]>>, <<p[6], 3>>)>>, <<>>,
            <<StorE(1, 2, <<p[7], p[7]>>, 2, p[8], p[9], p[10], p[11])>>, <<>>) :
            p \in {x \in (0..1) \X (0..2) \X {2, 4} \X (0..2) \X (0..1) \X {0, 2} \X {1, 2} \X {1, 2} \X {1, 2} \X {-1, 0, 1} \X {0, 1} : Keep(x)}}
Store2 == {Mk(2, 1, <<ConsE(1, <<0, p[1]>>, <<4, 4>>)>>, <<ProdE(1, <<p[2], p[3]>>, <<1, 3>>)>>, <<>>,
            <<StorE(1, 2, <<1, 1>>, 1, p[4], 2, p[5], p[6]), StorE(1, 2, <<p[7], p[7]>>, 2, 2, p[8], 0, p[9])>>, <<>>) :
            p \in {x \in (1..2) \X (0..2) \X (0..1) \X {0, 1} \X {0, 1} \X {0, 1} \X {0, 1} \X {1, 2} \X {0, 1} : Keep(x) /\ x[9] <= x[7]}}
Conv == {Mk(1, 3, <<ConsE(3, <<p[1]>>, <<8>>), ConsE(1, <<p[2]>>, <<3>>)>>, <<ProdE(1, <<p[3]>>, <<1>>), ProdE(2, <<p[4]>>, <<p[5]>>), ProdE(3, <<1>>, <<6>>)>>,
            <<>>, <<>>, <<[dst |-> 3, max |-> Row(1, p[6]), cost |-> Row(1, p[7]),
                           srcs |-> <<[node |-> 1, ratio |-> Row(1, p[8])], [node |-> 2, ratio |-> Row(1, p[9])]>>]>>) :
            p \in {x \in (0..2) \X (0..1) \X (0..2) \X (0..2) \X {0, 2} \X (0..2) \X {0, 4} \X {1, 2, 4} \X {1, 2} : Keep(x)}}
(* storages that start above their capacity, with loads, other storages and links to drain them *)
Drain == {Mk(2, 2, <<ConsE(1, <<p[1], p[2]>>, <<4, 4>>), ConsE(2, <<p[3], 1>>, <<4, 4>>)>>, <<>>, <<LinkE(1, 2, <<p[4], p[4]>>, <<0, 0>>)>>,
            <<StorE(1, 2, <<p[5], p[6]>>, 1, p[7], 2, 0, p[8]), StorE(2, 2, <<p[9], p[9]>>, p[9], 1, 2, 0, 0)>>, <<>>) :
            p \in {x \in (0..1) \X (0..1) \X (0..1) \X (0..1) \X (0..2) \X (0..1) \X (0..2) \X (0..2) \X (0..1) : Keep(x)}}

Family == CASE Cfg.fam = "Merit" -> Merit [] Cfg.fam = "Grid" -> Grid [] Cfg.fam = "Ring" -> Ring
            [] Cfg.fam = "Store" -> Store [] Cfg.fam = "Store2" -> Store2 [] Cfg.fam = "Conv" -> Conv [] Cfg.fam = "Drain" -> Drain

---------------------------------------------------------------------------
Fns(n, lim(_)) == {f \in [1..n -> 0..Max({0} \cup {lim(i) : i \in 1..n})] : \A i \in 1..n : f[i] <= lim(i)}
Srcs(I) == UNION {{<<v, k>> : k \in DOMAIN I.conv[v].srcs} : v \in DOMAIN I.conv}

(* every integer dispatch of step t allowed from levels prev *)
Dispatches(I, t, prev) ==
    LET G == Fns(Len(I.cons), LAMBDA i : I.cons[i].asked[1][t])
        U == Fns(Len(I.prod), LAMBDA i : I.prod[i].avail[1][t])
        F == Fns(Len(I.link), LAMBDA i : I.link[i].avail[1][t])
        IN_ == {f \in Fns(Len(I.stor), LAMBDA i : I.stor[i].fin[1][t]) : \A i \in DOMAIN f : (f[i] * I.stor[i].eff[1][t]) % I.E = 0}
        OUT_ == Fns(Len(I.stor), LAMBDA i : I.stor[i].fout[1][t])
        CD == {f \in Fns(Len(I.conv), LAMBDA i : I.conv[i].max[1][t]) :
                 \A p \in Srcs(I) : (f[p[1]] * I.R) % I.conv[p[1]].srcs[p[2]].ratio[1][t] = 0}
        ST == {x \in {[in |-> i, out |-> o, lvl |-> [k \in DOMAIN I.stor |-> prev[k] + (i[k] * I.stor[k].eff[1][t]) \div I.E - o[k]]] :
                       i \in IN_, o \in OUT_} : \A k \in DOMAIN I.stor : x.lvl[k] \in 0..I.stor[k].cap[1][t]}
        All == {[given |-> g, used |-> u, flow |-> f, in |-> x.in, out |-> x.out, lvl |-> x.lvl, cdst |-> c,
                 csrc |-> [v \in DOMAIN I.conv |-> [k \in DOMAIN I.conv[v].srcs |-> (c[v] * I.R) \div I.conv[v].srcs[k].ratio[1][t]]]] :
                 g \in G, u \in U, f \in F, x \in ST, c \in CD}
    IN {D \in All : StepOK(I, D, 1, t, prev, 0)}

StepC(I, D, t) == WInt(StepCost(I, D, 1, t))

RECURSIVE BestFrom(_, _, _)
(* <<feasible, cost, dispatches>> of a cheapest completion *)
BestFrom(I, t, prev) ==
    IF t > I.H THEN <<TRUE, 0, <<>>>>
    ELSE LET one(D) == LET b == BestFrom(I, t + 1, D.lvl) IN <<b[1], StepC(I, D, t) + b[2], <<D>> \o b[3]>>
             all == {one(D) : D \in Dispatches(I, t, prev)}
             ok == {x \in all : x[1]}
         IN IF ok = {} THEN <<FALSE, 0, <<>>>> ELSE CHOOSE x \in ok : \A y \in ok : x[2] <= y[2]

---------------------------------------------------------------------------
VARIABLES I, t, lvl, cost, best, made, kept
vars == <<I, t, lvl, cost, best, made, kept>>

Init == /\ I \in Family
        /\ t = 0 /\ cost = 0 /\ made = 0 /\ kept = 0
        /\ lvl = InitLevels(I)
        /\ best = <<FALSE, 0, <<>>>>
Publish == /\ t = 0 /\ t' = 1
           /\ best' = BestFrom(I, 1, lvl)
           /\ PrintT("@@INST|" \o ToJson([I |-> I, feasible |-> best'[1], cost |-> best'[2], X |-> best'[3]]))
           /\ UNCHANGED <<I, lvl, cost, made, kept>>
Energy(D) == Sum(LAMBDA i : D.used[i], DOMAIN D.used) + Sum(LAMBDA i : D.cdst[i], DOMAIN D.cdst)
             - Sum(LAMBDA p : D.csrc[p[1]][p[2]], Srcs(I))
Step == /\ t > 0 /\ t <= I.H
        /\ \E D \in Dispatches(I, t, lvl) :
             /\ lvl' = D.lvl
             /\ cost' = cost + StepC(I, D, t)
             /\ made' = made + Energy(D) + Sum(LAMBDA i : lvl[i] - D.lvl[i], DOMAIN lvl)
             /\ kept' = kept + Sum(LAMBDA i : D.given[i], DOMAIN D.given)
                        + Sum(LAMBDA i : D.in[i] - (D.in[i] * I.stor[i].eff[1][t]) \div I.E, DOMAIN lvl)
        /\ t' = t + 1
        /\ UNCHANGED <<I, best>>
Next == Publish \/ Step
Spec == Init /\ [][Next]_vars

Capacity == t > 1 => \A i \in DOMAIN lvl : lvl[i] >= 0 /\ lvl[i] <= I.stor[i].cap[1][t - 1]
NoCheaper == t = I.H + 1 => best[1] /\ cost >= best[2]
\* energy produced, converted and drawn from stock = energy consumed and lost in storage efficiency
Conserved == made = kept
=============================================================================
