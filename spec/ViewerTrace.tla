----------------------------- MODULE ViewerTrace -----------------------------
(* Figures of the real plotting interface against Viewer. Records:           *)
(*   id, A, asks << [ask, ...] >>, drawn one per transition on one analyzer  *)
(*   "plot" [r, x, ...figure], "stack" [net, node, scn, prod, cons, areas,   *)
(*   lines, balanced], "map" [net, t, scn, nodes, arrows], "rac" [net, m, z],*)
(*   "ctor" [start, end], "same" [v]                                         *)
EXTENDS Viewer, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l
Rec == Data[c]
A == Rec.A
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|ask " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1
Iota(n) == [k \in 1..n |-> k - 1]
Caption(e, names, nums) ==
  /\ Check(names \subseteq ToSet(e.cap.names), "title does not name what is shown", <<e.what, names, e.cap.names>>)
  /\ Check(nums \subseteq ToSet(e.cap.nums), "title does not give the step or scenario", <<e.what, nums, e.cap.nums>>)
  /\ Check(e.cap.unit, "unit missing", e.what)
Plot(e) == LET r == e.r IN
  Caption(e, Called(A, r), Numbers(r)) /\
  CASE r.plot = "timeline" -> LET want == Timeline(A, r) IN
         /\ Check({e.lines[i].scn : i \in DOMAIN e.lines} = 0..(A.S - 1) /\ Len(e.lines) = A.S, "one line per scenario", <<r, [i \in DOMAIN e.lines |-> e.lines[i].scn]>>)
         /\ \A i \in DOMAIN e.lines :
              /\ Check(e.lines[i].x = Iota(A.H), "time axis", <<r, e.lines[i].x>>)
              /\ Check(e.lines[i].scn \notin 0..(A.S - 1) \/ e.lines[i].y = want[e.lines[i].scn + 1], "timeline values", <<r, e.lines[i], want>>)
    [] r.plot = "monotone" -> Check(e.y = Monotone(A, r), "monotone values", <<r, e.y, Monotone(A, r)>>)
    [] r.plot = "gaussian" ->
         /\ Check(Desc(e.passed) = Points(A, r, TRUE), "passed points", <<r, e.passed, Points(A, r, TRUE)>>)
         /\ Check(Desc(e.failed) = Points(A, r, FALSE), "failed points", <<r, e.failed, Points(A, r, FALSE)>>)
         /\ LET v == Along(A, r, Shown(A, r)) IN
            Check(e.bell = <<>> \/ Cardinality(ToSet(v)) = 1 \/ BellOK(v, e.bell[1], e.bell[2]), "bell curve", <<r, e.bell, v>>)
    [] OTHER -> LET want == Candles(A, r) IN
         /\ Check(e.open = want.open, "candle open", <<r, e.open, want.open>>)
         /\ Check(e.close = want.close, "candle close", <<r, e.close, want.close>>)
         /\ Check(e.x = Iota(A.H), "time axis", <<r, e.x>>)
Near(u, v, tol) == \A t \in DOMAIN u : u[t] - v[t] <= tol /\ v[t] - u[t] <= tol
Stack(e) == LET s == e.scn + 1
                a == Diff(e.areas, A.H)  wa == Areas(A, e.net, e.node, s, e.prod)
                b == Diff(e.lines, A.H)  wb == Lines(A, e.net, e.node, s, e.cons)
            IN /\ Caption(e, {e.node}, {})
               /\ Check(\A i \in DOMAIN e.x : e.x[i] = Iota(A.H), "time axis", e.x)
               /\ IF Rec.exact THEN /\ Check(SameProfiles(a, wa, "import"), "stacked areas", <<e.what, a, wa>>)
                                    /\ Check(SameProfiles(b, wb, "export"), "stacked lines", <<e.what, b, wb>>)
                               ELSE /\ Check(Len(a) \in {Len(wa), Len(wa) - 1}, "number of areas", <<e.what, a, wa>>)
                                    /\ Check(Len(b) \in {Len(wb), Len(wb) - 1}, "number of lines", <<e.what, b, wb>>)
                                    /\ Check(Near(Top(e.areas, A.H), Total(wa, A.H), 2 * Len(wa)), "total of areas", <<e.what, Top(e.areas, A.H), Total(wa, A.H)>>)
                                    /\ Check(Near(Top(e.lines, A.H), Total(wb, A.H), 2 * Len(wb)), "total of lines", <<e.what, Top(e.lines, A.H), Total(wb, A.H)>>)
               /\ Check(~Rec.balanced \/ e.prod # "used" \/ e.cons # "given" \/ Near(Top(e.areas, A.H), Top(e.lines, A.H), IF Rec.exact THEN 0 ELSE 2),
                        "areas and lines have different totals", <<e.what, Top(e.areas, A.H), Top(e.lines, A.H)>>)
Map(e) == LET s == e.scn + 1  t == e.t + 1
              drawn == {e.arrows[i] : i \in {i \in DOMAIN e.arrows : e.arrows[i][3] # 0}}
              pairs == Linked(A, e.net) IN
  /\ Caption(e, {}, {e.t, e.scn})
  /\ Check(ToSet(e.nodes) = Balances(A, e.net, s, t) /\ Len(e.nodes) = Cardinality(Balances(A, e.net, s, t)), "node balances", <<e.what, e.nodes, Balances(A, e.net, s, t)>>)
  /\ Check(e.colors = e.nodes, "node colours", <<e.what, e.colors, e.nodes>>)
  /\ Check(drawn = Arrows(A, e.net, s, t), "arrows", <<e.what, drawn, Arrows(A, e.net, s, t)>>)
  /\ Check(Cardinality(drawn) = Cardinality({i \in DOMAIN e.arrows : e.arrows[i][3] # 0}), "arrow drawn twice", <<e.what, e.arrows>>)
  /\ \A i \in DOMAIN e.arrows :
        Check(<<e.arrows[i][1], e.arrows[i][2]>> \in pairs \/ <<e.arrows[i][2], e.arrows[i][1]>> \in pairs, "arrow between nodes without link", <<e.what, e.arrows[i]>>)
  /\ \A i \in DOMAIN e.arrows : e.arrows[i][3] = 0 => Check(Net(A, e.net, e.arrows[i][1], e.arrows[i][2], s, t) = 0, "zero arrow for a flow", <<e.what, e.arrows[i]>>)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Matrix(e) == LET want == Rac(A, e.net) IN
  /\ Check(ToSet(e.cap.nums) \cap Passed(A, e.net) # {}, "share of passed", <<e.net, e.cap.nums, Passed(A, e.net)>>)
  /\ Check(e.m = want, "remaining capacity shown", <<e.net, e.m, want>>)
  /\ Check(e.m # want \/ e.z = [s \in 1..A.S |-> [t \in 1..A.H |-> Sign(want[s][t])]], "sign of the colour", <<e.net, e.z, want>>)
  /\ Check(e.x = Iota(A.H) /\ e.y = Iota(A.S), "axes", <<e.x, e.y>>)
Judge(e) == CASE e.ask = "plot" -> Plot(e) [] e.ask = "stack" -> Stack(e) [] e.ask = "map" -> Map(e) [] e.ask = "rac" -> Matrix(e)
              [] e.ask = "same" -> Check(e.v, "drawing changed the analyzer", e.ask)
              [] OTHER -> TRUE
MustFail(e) == \/ e.ask = "plot" /\ Rejected(e.r)
               \/ e.ask = "ctor"
Step == /\ l <= Len(Rec.asks)
        /\ LET e == Rec.asks[l] IN
           IF MustFail(e) THEN Check(e.outcome = "ValueError", "accepted a contradictory request", <<e.what, e.outcome>>)
           ELSE /\ Check(e.outcome = "ok", "raised", <<e.ask, e.what, e.outcome>>)
                /\ (IF e.outcome = "ok" THEN Judge(e) ELSE TRUE)
        /\ l' = l + 1 /\ c' = c
Asked == {Rec.asks[i].r : i \in {i \in DOMAIN Rec.asks : Rec.asks[i].ask = "plot"}}
End == /\ l = Len(Rec.asks) + 1 /\ Check(~Rec.full \/ Requests(A) = Asked, "MACHINERY not every request was drawn", Cardinality(Requests(A))) /\ l' = l + 1 /\ PrintT("@@DONE|" \o Rec.id) /\ UNCHANGED c
Spec == Init /\ [][Step \/ End]_<<c, l>>
=============================================================================
