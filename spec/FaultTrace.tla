----------------------------- MODULE FaultTrace -----------------------------
(* Draws recorded from the real code.                                        *)
(*  kind "call":  before, after (frames of spec/Frames), loss, lo, hi, freq  *)
(*                ("zero" | "one" | "mid"), intact                           *)
(*  kind "draws": calls (each a list of profiles, one per scenario), seeded  *)
(*  kind "mean":  total outages over runs * H steps, freq = a / b            *)
(*  kind "spread": begins and durations seen among lone outages              *)
(*  kind "seeds": profiles drawn with different seeds                        *)
(*  kind "sum":   total outage steps over runs * H steps with lasting lo..hi *)
EXTENDS Fault, Frames, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l
Rec == Data[c]
Fr(x) == [rows |-> x.rows, cells |-> {x.cells[k] : k \in DOMAIN x.cells}]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|" \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Abs(x) == IF x < 0 THEN -x ELSE x
Cap(x) == Min(Abs(x), 40000)

Call ==
  LET f == Fr(Rec.before) g == Fr(Rec.after)
      others(h) == {x \in h.cells : x.n # "quantity"}
      cell(h, s) == CHOOSE x \in h.cells : x.s = s /\ x.n = "quantity"
      H == Len(f.rows)
      lossOf(s) == [t \in 1..H |-> cell(f, s).d[t] - cell(g, s).d[t]]
  IN /\ Check(g.rows = f.rows /\ Scns(g) = Scns(f) /\ others(g) = others(f) /\ Len(Rec.after.cells) = Len(Rec.before.cells),
              "something else changed", <<f, g>>)
     /\ Check(Rec.intact, "caller's data modified", Rec.id)
     /\ (g.rows = f.rows /\ Scns(g) = Scns(f)) => \A s \in Scns(f) :
          LET q == lossOf(s)
              whole == \A t \in 1..H : q[t] >= 0 /\ q[t] % Rec.loss = 0
              p == [t \in 1..H |-> q[t] \div Rec.loss]
              n == IF whole THEN Counts(p, Rec.lo, Rec.hi) ELSE {}
          IN /\ Check(whole, "not a multiple of the loss", <<s, q, Rec.loss>>)
             /\ Check(~whole \/ n # {}, "not a sum of outages of the allowed duration", <<s, p, Rec.lo, Rec.hi>>)
             /\ Check(Rec.freq # "zero" \/ ~whole \/ \A t \in 1..H : p[t] = 0, "outage at frequency zero", <<s, p>>)
             /\ Check(Rec.freq # "one" \/ n = {} \/ H \in n \/ (Rec.lo = 0 /\ \E m \in n : m <= H), "frequency one: not one outage per step", <<s, p, n>>)
Draws ==
  LET R == DOMAIN Rec.calls
      S == DOMAIN Rec.calls[1]
  IN IF Rec.seeded
     THEN Check(\A i, j \in R : Rec.calls[i] = Rec.calls[j], "seeded draws differ", Rec.calls)
     ELSE Check(\A i, j \in R : \A s, u \in S : <<i, s>> # <<j, u>> => Rec.calls[i][s] # Rec.calls[j][u], "unseeded draws repeat", Rec.calls)
Mean == LET dev == Rec.b * Rec.total - Rec.a * Rec.H * Rec.runs IN
        Check(Cap(dev) * Cap(dev) <= 40 * Rec.runs * Rec.H * Rec.a * (Rec.b - Rec.a), "average number of outages", <<Rec.total, Rec.a, Rec.b, Rec.H, Rec.runs>>)
\* each outage shows between one and hi steps: bounds of the mean with a wide margin
Sum2 == /\ Check(10 * Rec.b * Rec.total >= 9 * Rec.a * Rec.H * Rec.runs, "too few outages", Rec)
        /\ Check(10 * Rec.b * Rec.total <= 11 * Rec.a * Rec.H * Rec.runs * Rec.hi, "too many outages", Rec)
\* among many lone outages every step is a begin and every duration up to the maximal one (excluded) is met
Rng(q) == {q[k] : k \in DOMAIN q}
Spread == /\ Check(Rng(Rec.begins) = 0..Rec.H - 1, "begins that never occur", <<Rec.begins, Rec.H>>)
          /\ Check({d \in Least(Rec.lo)..(IF Rec.hi > Rec.lo THEN Rec.hi - 1 ELSE Rec.lo) : d < Rec.H - 1} \subseteq Rng(Rec.lasting),
                   "durations that never occur", <<Rec.lasting, Rec.lo, Rec.hi>>)
Seeds == Check(\A i, j \in DOMAIN Rec.profiles : i # j => Rec.profiles[i] # Rec.profiles[j], "two seeds, the same outages", Rec.profiles)
Init == c \in DOMAIN Data /\ l = 0
Next == /\ l = 0 /\ l' = 1 /\ c' = c
        /\ CASE Rec.kind = "call" -> Call [] Rec.kind = "draws" -> Draws [] Rec.kind = "mean" -> Mean [] Rec.kind = "sum" -> Sum2
             [] Rec.kind = "spread" -> Spread [] Rec.kind = "seeds" -> Seeds
        /\ PrintT("@@DONE|" \o Rec.id)
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
