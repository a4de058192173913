------------------------------- MODULE MCViewer -------------------------------
(* Every dispatch of a two node system over H steps: a production and a      *)
(* consumption on each node, links both ways, a storage on a, a converter    *)
(* from a to b. The plots of Viewer are checked on every reachable history.  *)
EXTENDS Viewer
CONSTANTS H, V
VARIABLES A
Row(v) == <<v>>
M0 == <<<<>>>>
Add(M, v) == <<Append(M[1], v)>>
Init == A = [S |-> 1, H |-> 0, nets |-> <<[name |-> "n", nodes |-> <<"a", "b">>]>>,
   cons |-> <<[net |-> "n", node |-> "a", name |-> "load", cost |-> M0, asked |-> M0, given |-> M0], [net |-> "n", node |-> "b", name |-> "load", cost |-> M0, asked |-> M0, given |-> M0]>>,
   prod |-> <<[net |-> "n", node |-> "a", name |-> "gas", cost |-> M0, avail |-> M0, used |-> M0], [net |-> "n", node |-> "b", name |-> "load", cost |-> M0, avail |-> M0, used |-> M0]>>,
   stor |-> <<[net |-> "n", node |-> "a", name |-> "gas", cost |-> M0, cap |-> M0, fin |-> M0, fout |-> M0, eff |-> M0, init |-> 100, lvl |-> M0, in |-> M0, out |-> M0]>>,
   link |-> <<[net |-> "n", node |-> "a", dest |-> "b", cost |-> M0, avail |-> M0, used |-> M0], [net |-> "n", node |-> "b", dest |-> "a", cost |-> M0, avail |-> M0, used |-> M0]>>,
   conv |-> <<[name |-> "cv", net |-> "n", node |-> "b", cost |-> M0, max |-> M0, flow |-> M0, srcs |-> <<[net |-> "n", node |-> "a", ratio |-> M0, flow |-> M0]>>]>>]
\* one balanced step
Next == /\ A.H < H
        /\ \E pa, pb, ab, ba, i, o, f \in V : \E aa, mm \in V :
           LET ga == pa + o + ba - ab - i - f        \* what is left for the consumption on a
               gb == pb + ab + f - ba IN
           /\ ga >= 0 /\ gb >= 0
           /\ A' = [A EXCEPT !.H = @ + 1,
                !.cons[1].asked = Add(@, ga + mm), !.cons[1].given = Add(@, ga), !.cons[2].asked = Add(@, gb), !.cons[2].given = Add(@, gb),
                !.prod[1].avail = Add(@, pa + aa), !.prod[1].used = Add(@, pa), !.prod[2].avail = Add(@, pb), !.prod[2].used = Add(@, pb),
                !.stor[1].in = Add(@, i), !.stor[1].out = Add(@, o), !.stor[1].eff = Add(@, 50),
                !.link[1].avail = Add(@, ab), !.link[1].used = Add(@, ab), !.link[2].avail = Add(@, ba), !.link[2].used = Add(@, ba),
                !.conv[1].flow = Add(@, f), !.conv[1].srcs[1].flow = Add(@, f)]
Spec == Init /\ [][Next]_A
R(el, i, plot) == [el |-> el, i |-> i, j |-> 1, kind |-> "", plot |-> plot, t |-> -1, scn |-> 0]
\* C24: with used and given the areas and lines of a node end at the same height
StackBalanced == \A x \in {"a", "b"} : Total(Areas(A, "n", x, 1, "used"), A.H) = Total(Lines(A, "n", x, 1, "given"), A.H)
\* C24: arrows into and out of a node explain its balance
MapConsistent == \A t \in 1..A.H : LET W == Arrows(A, "n", 1, t) IN
   /\ \A b \in Balances(A, "n", 1, t) : b[2] = FoldSet(LAMBDA w, acc : acc + (IF w[1] = b[1] THEN w[3] ELSE 0) - (IF w[2] = b[1] THEN w[3] ELSE 0), 0, W)
   /\ FoldSet(LAMBDA b, acc : acc + b[2], 0, Balances(A, "n", 1, t)) = 0
   /\ Cardinality(W) <= 1
\* C23: monotone is the sorted profile, the points split it by sign, candles chain
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] >= s[k + 1]
Monotones == A.H > 0 => \A d \in {R("cons", 1, "monotone"), R("stor", 1, "monotone"), R("src", 1, "monotone"), R("link", 2, "monotone")} :
   LET m == Monotone(A, d)  v == Shown(A, d)[1] IN Sorted(m) /\ \A x \in ToSet(m) \cup ToSet(v) : Count1(m, x) = Count1(v, x)
PointsSplit == A.H > 0 => LET d == R("prod", 1, "gaussian") IN Desc(Points(A, d, TRUE) \o Points(A, d, FALSE)) = Monotone(A, d)
CandlesChain == LET k == Candles(A, R("stor", 1, "candles")) IN
   /\ (A.H > 0 => k.open[1] = 10000) /\ \A t \in 1..(A.H - 1) : k.open[t + 1] = k.close[t]
=============================================================================
