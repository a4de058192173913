------------------------------ MODULE SolvePool ------------------------------
(* The parallel solve: a parent process hands one job per scenario to a pool *)
(* of workers and gathers the answers. A worker takes the oldest pending job *)
(* (jobs may be handed out in any order when AnyOrder), jobs end in any      *)
(* order, a worker may be reused. The parent stores the answer of job i at   *)
(* index i, whatever the arrival order.                                      *)
(* Every schedule (sequence of <<worker, job>> completions) is printed at    *)
(* the end of its behaviour and imposed on the real code.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.CFG)     \* [N, W, any]
N == Cfg.N
W == Cfg.W
Jobs == 1..N
Workers == 1..W

VARIABLES pending, busy, arrived, gathered, ended
vars == <<pending, busy, arrived, gathered, ended>>

Idle == 0
Answer(i) == <<"dispatch of scenario", i>>       \* a job sees only its own scenario's data
Empty == <<"nothing", 0>>

Init == /\ pending = Jobs
        /\ busy = [w \in Workers |-> Idle]
        /\ arrived = <<>>
        /\ gathered = [i \in Jobs |-> Empty]
        /\ ended = FALSE

Take(w) == /\ busy[w] = Idle /\ pending # {}
           \* idle workers are interchangeable: the lowest-numbered unused one starts first
           /\ \A v \in Workers : v < w /\ busy[v] = Idle => \E k \in 1..Len(arrived) : arrived[k][1] = v
           /\ \E i \in (IF Cfg.any THEN pending ELSE {CHOOSE j \in pending : \A k \in pending : j <= k}) :
                /\ pending' = pending \ {i}
                /\ busy' = [busy EXCEPT ![w] = i]
           /\ UNCHANGED <<arrived, gathered, ended>>
Finish(w) == /\ busy[w] # Idle
             /\ arrived' = Append(arrived, <<w, busy[w]>>)
             /\ gathered' = [gathered EXCEPT ![busy[w]] = Answer(busy[w])]
             /\ busy' = [busy EXCEPT ![w] = Idle]
             /\ UNCHANGED <<pending, ended>>
Return == /\ ~ended /\ Len(arrived) = N
          /\ ended' = TRUE
          /\ PrintT("@@PLAN|" \o ToJson(arrived))
          /\ UNCHANGED <<pending, busy, arrived, gathered>>
Next == (\E w \in Workers : Take(w) \/ Finish(w)) \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ pending \subseteq Jobs /\ busy \in [Workers -> 0..N] /\ ended \in BOOLEAN
\* no job lost or done twice
Once == \A i \in Jobs : Cardinality({k \in 1..Len(arrived) : arrived[k][2] = i})
             + Cardinality({w \in Workers : busy[w] = i}) + (IF i \in pending THEN 1 ELSE 0) = 1
\* what the parent holds at index i belongs to scenario i; complete at the end
Placed == \A i \in Jobs : gathered[i] \in {Empty, Answer(i)}
Complete == ended => \A i \in Jobs : gathered[i] = Answer(i)
Terminates == <>ended
=============================================================================
