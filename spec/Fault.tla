-------------------------------- MODULE Fault --------------------------------
(* Outages over a horizon. An outage begins at a step of the horizon and     *)
(* lasts between lo and hi steps, or until the horizon ends. A profile       *)
(* counts the outages running at each step.                                  *)
EXTENDS Integers, Sequences, FiniteSets

Profile(H, outs) == [t \in 1..H |-> Cardinality({k \in DOMAIN outs : outs[k].b <= t /\ t < outs[k].b + outs[k].d})]

(* Which profiles are sums of outages: follow the running outages by age,    *)
(* oldest first; before each step some of the oldest end (those old enough   *)
(* may, those at hi must), then new ones begin. A state is <<ages, number    *)
(* of outages begun>>.                                                       *)
Least(lo) == IF lo < 1 THEN 1 ELSE lo
Succ(st, x, lo, hi) ==
  LET a == st[1] IN
  { <<[k \in 1..x |-> IF k <= Len(a) - e THEN a[k + e] + 1 ELSE 1], st[2] + x - (Len(a) - e)>> :
      e \in {e \in 0..Len(a) : /\ Len(a) - e <= x
                               /\ \A k \in 1..e : a[k] >= Least(lo)
                               /\ \A k \in e + 1..Len(a) : a[k] < hi} }
RECURSIVE Reach(_, _, _, _)
Reach(p, t, lo, hi) == IF t = 0 THEN {<<<<>>, 0>>}
                       ELSE UNION {IF hi < 1 /\ p[t] > 0 THEN {} ELSE Succ(st, p[t], lo, hi) : st \in Reach(p, t - 1, lo, hi)}
\* possible numbers of visible outages behind a profile (empty: none)
Counts(p, lo, hi) == {st[2] : st \in Reach(p, Len(p), lo, hi)}
=============================================================================
