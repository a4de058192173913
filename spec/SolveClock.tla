----------------------------- MODULE SolveClock -----------------------------
(* Durations reported with a result. One clock; the call starts, every       *)
(* scenario is modelled then solved by some worker, the parent gathers the    *)
(* answers and returns. A duration is the difference of two clock readings,   *)
(* those of a scenario being taken from the moment its worker started on it.  *)
EXTENDS Integers, Sequences

CONSTANTS N, MaxTime
Scn == 1..N
None == -1
VARIABLES clock, begun, built, solved, gather, bench
cvars == <<clock, begun, built, solved, gather, bench>>

CInit == /\ clock = 0 /\ gather = None /\ bench = <<>>
         /\ begun = [i \in Scn |-> None] /\ built = begun /\ solved = begun
Tick == clock < MaxTime /\ clock' = clock + 1 /\ UNCHANGED <<begun, built, solved, gather, bench>>
Begin(i) == begun[i] = None /\ begun' = [begun EXCEPT ![i] = clock] /\ UNCHANGED <<clock, built, solved, gather, bench>>
Build(i) == begun[i] # None /\ built[i] = None /\ built' = [built EXCEPT ![i] = clock] /\ UNCHANGED <<clock, begun, solved, gather, bench>>
SolveScn(i) == built[i] # None /\ solved[i] = None /\ solved' = [solved EXCEPT ![i] = clock] /\ UNCHANGED <<clock, begun, built, gather, bench>>
Gather == /\ gather = None /\ \A i \in Scn : solved[i] # None
          /\ gather' = clock /\ UNCHANGED <<clock, begun, built, solved, bench>>
Deliver == /\ gather # None /\ bench = <<>>
           /\ bench' = <<[modeler |-> [i \in Scn |-> built[i] - begun[i]], solver |-> [i \in Scn |-> solved[i] - begun[i]],
                          mapper |-> clock - gather, total |-> clock]>>
           /\ UNCHANGED <<clock, begun, built, solved, gather>>
CNext == Tick \/ (\E i \in Scn : Begin(i) \/ Build(i) \/ SolveScn(i)) \/ Gather \/ Deliver
CSpec == CInit /\ [][CNext]_cvars

(* what holds of every report, given the number of scenarios and the time    *)
(* the caller waited (slack: the caller's clock readings are taken a moment   *)
(* apart; fine: rounding of durations that come from one clock)               *)
BenchBad(b, n, wall, slack, fine) ==
  (IF Len(b.modeler) = n /\ Len(b.solver) = n THEN {} ELSE {<<"one modelling and one solving time per scenario", Len(b.modeler), Len(b.solver), n>>})
  \cup {<<"modelling time", i, b.modeler[i]>> : i \in {j \in 1..Len(b.modeler) : b.modeler[j] < 0 \/ b.modeler[j] > wall + slack}}
  \cup {<<"solving time", i, b.solver[i]>> : i \in {j \in 1..Len(b.solver) : b.solver[j] < 0 \/ b.solver[j] > wall + slack}}
  \cup {<<"solved before modelled", i>> : i \in {j \in 1..Len(b.solver) : j <= Len(b.modeler) /\ b.solver[j] + fine < b.modeler[j]}}
  \cup (IF b.total >= 0 /\ b.total <= wall + slack THEN {} ELSE {<<"total time", b.total, wall>>})
  \cup (IF b.mapper >= 0 /\ b.mapper <= b.total + fine THEN {} ELSE {<<"gathering time", b.mapper, b.total>>})
  \cup {<<"total shorter than a scenario", i>> : i \in {j \in 1..Len(b.solver) : b.solver[j] > b.total + fine}}
Sound == \A k \in 1..Len(bench) : BenchBad(bench[k], N, clock, 0, 0) = {}
=============================================================================
