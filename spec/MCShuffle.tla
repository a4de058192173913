----------------------------- MODULE MCShuffle -----------------------------
(* Timelines computed by parallel workers in any order, sampled by one       *)
(* source of randomness: every result is a sample, timelines are independent *)
(* (every combination of rows occurs) and schedules do not matter.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Names, Scen, Nb, Workers
NamesV == {"a", "b", "c"}
ScenV == [n \in NamesV |-> IF n = "a" THEN 2 ELSE IF n = "b" THEN 3 ELSE 1]
Rows(n) == [k \in 1..Scen[n] |-> <<n, k>>]
VARIABLES pending, busy, data, got
vars == <<pending, busy, data, got>>
None == <<>>
Init == /\ pending = Names /\ busy = [w \in Workers |-> "idle"] /\ data = [n \in Names |-> None]
        /\ got = [n \in Names |-> None]
Take(w) == busy[w] = "idle" /\ \E n \in pending : pending' = pending \ {n} /\ busy' = [busy EXCEPT ![w] = n] /\ UNCHANGED <<data, got>>
Finish(w) == busy[w] # "idle" /\ data' = [data EXCEPT ![busy[w]] = Rows(busy[w])] /\ busy' = [busy EXCEPT ![w] = "idle"] /\ UNCHANGED <<pending, got>>
Ready == pending = {} /\ \A w \in Workers : busy[w] = "idle"
Sample(n) == /\ Ready /\ got[n] = None
             /\ \E idx \in [1..Nb -> 1..Len(data[n])] : got' = [got EXCEPT ![n] = [k \in 1..Nb |-> data[n][idx[k]]]]
             /\ UNCHANGED <<pending, busy, data>>
Done == Ready /\ \A n \in Names : got[n] # None
Next == (\E w \in Workers : Take(w) \/ Finish(w)) \/ \E n \in Names : Sample(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == \A n \in Names : got[n] # None => Len(got[n]) = Nb /\ \A k \in 1..Nb : got[n][k] \in {Rows(n)[j] : j \in 1..Scen[n]}
Ends == <>Done
=============================================================================
