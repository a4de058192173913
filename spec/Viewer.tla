-------------------------------- MODULE Viewer --------------------------------
(* What the plots must show for an analyzed study (state A of Analyzer).     *)
(* An element plot is a request                                              *)
(*   r = [el, i, j, kind, plot, t, scn]                                      *)
(*     el  cons | prod | link | stor | src | dst, i its index in A, j the    *)
(*     source of a converter (el = "src"), kind "" when left to the default, *)
(*     plot timeline | monotone | gaussian | candles, t and scn zero based,  *)
(*     -1 when not given.                                                    *)
(* Values are fixed point times 100 (candles times 10000).                   *)
EXTENDS Analyzer

Element(A, r) == CASE r.el = "cons" -> A.cons[r.i] [] r.el = "prod" -> A.prod[r.i] [] r.el = "link" -> A.link[r.i] [] r.el = "stor" -> A.stor[r.i]
                   [] r.el = "src" -> A.conv[r.i].srcs[r.j] [] OTHER -> A.conv[r.i]
NetOf(A, r) == Element(A, r).net
KindAsked(r) == IF r.kind # "" THEN r.kind ELSE IF r.el = "cons" THEN "given" ELSE "used"
Shown(A, r) == LET e == Element(A, r)  k == KindAsked(r) IN
   CASE r.el = "cons" -> (IF k = "asked" THEN e.asked ELSE e.given)
     [] r.el \in {"prod", "link"} -> (IF k = "avail" THEN e.avail ELSE e.used)
     [] r.el = "stor" -> [s \in 1..A.S |-> [t \in 1..A.H |-> e.in[s][t] - e.out[s][t]]]
     [] OTHER -> e.flow
Rejected(r) == r.plot # "candles" /\ r.t >= 0 /\ r.scn >= 0
\* the values at one step over the scenarios, or of one scenario over the steps
Along(A, r, M) == IF r.t >= 0 THEN [s \in 1..A.S |-> M[s][r.t + 1]] ELSE M[r.scn + 1]
Desc(s) == SortSeq(s, LAMBDA a, b : a > b)
Timeline(A, r) == Shown(A, r)
Monotone(A, r) == Desc(Along(A, r, Shown(A, r)))
Points(A, r, passed) == LET v == Along(A, r, Shown(A, r))
                            c == Along(A, r, Rac(A, NetOf(A, r)))
                            I == SelectSeq([k \in DOMAIN v |-> k], LAMBDA k : (c[k] >= 0) = passed)
                        IN Desc([k \in DOMAIN I |-> v[I[k]]])
RECURSIVE Level(_, _, _)            \* times 10000, after t steps
Level(e, s, t) == IF t = 0 THEN e.init * 100 ELSE Level(e, s, t - 1) + e.in[s][t] * e.eff[s][t] - e.out[s][t] * 100
Candles(A, r) == LET e == A.stor[r.i]  s == r.scn + 1 IN
   [open |-> [t \in 1..A.H |-> Level(e, s, t - 1)], close |-> [t \in 1..A.H |-> Level(e, s, t)]]

(* caption: the title names the element and its node (a link: both ends) and *)
(* the step or scenario asked for                                            *)
Called(A, r) == LET e == Element(A, r) IN IF r.el = "link" THEN {e.node, e.dest} ELSE {e.node, IF r.el = "src" THEN A.conv[r.i].name ELSE e.name}
Numbers(r) == (IF r.t >= 0 THEN {r.t} ELSE {}) \cup (IF r.scn >= 0 THEN {r.scn} ELSE {})
\* share of remaining capacities that are not negative, in percent (rounded either way)
Passed(A, n) == LET M == Rac(A, n)
                    k == Cardinality({p \in (1..A.S) \X (1..A.H) : M[p[1]][p[2]] >= 0})
                    f == (100 * k) \div (A.S * A.H)
                IN IF (100 * k) % (A.S * A.H) = 0 THEN {f, f - 1} \cap 0..100 ELSE {f, f + 1}
(* the bell curve of values v: mean m and deviation o, times 100             *)
AbsV(x) == IF x < 0 THEN -x ELSE x
BellOK(v, m, o) == LET n == Len(v)
                       d == [k \in DOMAIN v |-> v[k] - m]
                       q == SumSeq(LAMBDA k : d[k] * d[k], n)
                   IN /\ AbsV(SumSeq(LAMBDA k : d[k], n)) <= 2 * n
                      /\ AbsV(q - n * o * o) <= q \div 50 + 4 * n * o + n

\* every request an element accepts
KindsOf(el) == CASE el = "cons" -> {"", "asked", "given"} [] el \in {"prod", "link"} -> {"", "avail", "used"} [] OTHER -> {""}
PlotsOf(el) == IF el = "stor" THEN {"monotone", "candles"} ELSE {"timeline", "monotone", "gaussian"}
Focus(A, plot) == CASE plot = "timeline" -> {<<-1, -1>>} [] plot = "candles" -> {<<-1, s>> : s \in 0..(A.S - 1)}
                    [] OTHER -> {<<-1, s>> : s \in 0..(A.S - 1)} \cup {<<t, -1>> : t \in 0..(A.H - 1)} \cup {<<0, 0>>, <<A.H - 1, A.S - 1>>}
Ids(A) == UNION {{<<"cons", i, 0>> : i \in DOMAIN A.cons}, {<<"prod", i, 0>> : i \in DOMAIN A.prod}, {<<"link", i, 0>> : i \in DOMAIN A.link},
                 {<<"stor", i, 0>> : i \in DOMAIN A.stor}, {<<"dst", i, 0>> : i \in DOMAIN A.conv},
                 UNION {{<<"src", i, j>> : j \in DOMAIN A.conv[i].srcs} : i \in DOMAIN A.conv}}
Requests(A) == UNION {UNION {UNION {{[el |-> d[1], i |-> d[2], j |-> d[3], kind |-> k, plot |-> p, t |-> f[1], scn |-> f[2]] : f \in Focus(A, p)}
                                    : p \in PlotsOf(d[1])} : k \in KindsOf(d[1])} : d \in Ids(A)}

(* ------------------------------------------------------------------ node stack *)
\* named profiles, as a sequence (its order is not prescribed)
Profiles(s, P(_), nm(_), M(_), scn) == LET I == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : P(s[i]))
                                       IN [k \in DOMAIN I |-> <<nm(s[I[k]]), M(s[I[k]])[scn]>>]
NameOf(e) == e.name
Imports(A, n, x, s) == [t \in 1..A.H |-> LET b == Balance(A, n, x)[s][t] IN IF b < 0 THEN -b ELSE 0]
Exports(A, n, x, s) == [t \in 1..A.H |-> LET b == Balance(A, n, x)[s][t] IN IF b > 0 THEN b ELSE 0]
Areas(A, n, x, s, k) ==
     Profiles(A.prod, LAMBDA e : e.net = n /\ e.node = x, NameOf, LAMBDA e : IF k = "avail" THEN e.avail ELSE e.used, s)
  \o Profiles(A.stor, LAMBDA e : e.net = n /\ e.node = x, NameOf, LAMBDA e : e.out, s)
  \o Profiles(A.conv, LAMBDA e : e.net = n /\ e.node = x, NameOf, LAMBDA e : e.flow, s)
  \o <<<<"import", Imports(A, n, x, s)>>>>
SrcAt(e, n, x) == {j \in DOMAIN e.srcs : e.srcs[j].net = n /\ e.srcs[j].node = x}
Lines(A, n, x, s, k) ==
     Profiles(A.cons, LAMBDA e : e.net = n /\ e.node = x, NameOf, LAMBDA e : IF k = "given" THEN e.given ELSE e.asked, s)
  \o Profiles(A.stor, LAMBDA e : e.net = n /\ e.node = x, NameOf, LAMBDA e : e.in, s)
  \o Profiles(A.conv, LAMBDA e : SrcAt(e, n, x) # {}, NameOf, LAMBDA e : e.srcs[CHOOSE j \in SrcAt(e, n, x) : TRUE].flow, s)
  \o <<<<"export", Exports(A, n, x, s)>>>>
Count1(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
\* the same profiles, the same number of times; an all zero import or export may be left out
SameProfiles(got, want, opt) == \A v \in ToSet(got) \cup ToSet(want) :
     \/ Count1(got, v) = Count1(want, v)
     \/ v[1] = opt /\ (\A t \in DOMAIN v[2] : v[2][t] = 0) /\ Count1(got, v) = Count1(want, v) - 1
Diff(cum, H) == [i \in DOMAIN cum |-> <<cum[i][1], [t \in 1..H |-> cum[i][2][t] - (IF i = 1 THEN 0 ELSE cum[i - 1][2][t])]>>]
Top(cum, H) == [t \in 1..H |-> IF cum = <<>> THEN 0 ELSE cum[Len(cum)][2][t]]
Total(s, H) == [t \in 1..H |-> SumSeq(LAMBDA i : s[i][2][t], Len(s))]

(* ------------------------------------------------------------------ map *)
Linked(A, n) == {<<A.link[i].node, A.link[i].dest>> : i \in {i \in DOMAIN A.link : A.link[i].net = n}}
Net(A, n, x, y, s, t) == SumSeq(LAMBDA i : IF A.link[i].net # n \/ x = y THEN 0
                                           ELSE IF A.link[i].node = x /\ A.link[i].dest = y THEN A.link[i].used[s][t]
                                           ELSE IF A.link[i].node = y /\ A.link[i].dest = x THEN -A.link[i].used[s][t] ELSE 0, Len(A.link))
\* arrows <<from, to, quantity>> of non zero net flow
Arrows(A, n, s, t) == {<<p[1], p[2], Net(A, n, p[1], p[2], s, t)>> :
                       p \in {p \in Linked(A, n) \cup {<<q[2], q[1]>> : q \in Linked(A, n)} : p[1] # p[2] /\ Net(A, n, p[1], p[2], s, t) > 0}}
Balances(A, n, s, t) == LET xs == (CHOOSE m \in ToSet(A.nets) : m.name = n).nodes IN {<<xs[i], Balance(A, n, xs[i])[s][t]>> : i \in DOMAIN xs}
=============================================================================
