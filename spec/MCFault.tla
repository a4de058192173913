------------------------------- MODULE MCFault -------------------------------
(* Every draw of at most Cfg.n outages: the acceptor of Fault recognises     *)
(* exactly the profiles that draws can produce, with their number.           *)
EXTENDS Fault, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)      \* [H, lo, hi, n]
H == Cfg.H
VARIABLES outs, drawn
vars == <<outs, drawn>>
Init == outs = <<>> /\ drawn = FALSE
Draw == /\ Len(outs) < Cfg.n
        /\ \E b \in 1..H, d \in Cfg.lo..Cfg.hi : outs' = Append(outs, [b |-> b, d |-> d])
        /\ UNCHANGED drawn
Next == Draw
Spec == Init /\ [][Next]_vars
Visible == Cardinality({k \in DOMAIN outs : outs[k].d > 0})
Recognised == Visible \in Counts(Profile(H, outs), Cfg.lo, Cfg.hi)
Order == \A k \in DOMAIN outs : \A t \in 1..H : Profile(H, outs)[t] <= Len(outs)
\* the converse, once: every accepted profile is some draw with that number of outages
Draws(n) == [1..n -> [b : 1..H, d : Least(Cfg.lo)..Cfg.hi]]
Only == outs = <<>> => \A p \in [1..H -> 0..2] : \A n \in Counts(p, Cfg.lo, Cfg.hi) : n <= Cfg.n => \E o \in Draws(n) : Profile(H, o) = p
=============================================================================
