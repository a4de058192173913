--------------------------- MODULE IsolationTrace ---------------------------
(* Recorded sessions against Isolation. Record:                              *)
(*   alone   per object: its answers in a process of its own                 *)
(*   events  the session: [o, k, out], in order                              *)
(*   again   out of every event, read again when the session is over         *)
(* An answer is [t, n]: text that must be the same, numbers (costs of        *)
(* solves, scaled) that must be the same within tol.                         *)
EXTENDS Isolation, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l
tvars == <<c, l, pc, log, cell>>
Rec == Data[c]
TLens == <<>>
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|event " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Near(a, b) == a - b <= Rec.tol /\ b - a <= Rec.tol
Same(x, y) == /\ x.t = y.t /\ DOMAIN x.n = DOMAIN y.n
              /\ \A i \in DOMAIN x.n : Near(x.n[i], y.n[i])
TInit == c \in DOMAIN Data /\ l = 1 /\ log = <<>> /\ cell = 0 /\ pc = [o \in DOMAIN Data[c].alone |-> 0]
TStep == /\ l <= Len(Rec.events)
         /\ LET e == Rec.events[l] IN
            /\ Check(e.k = pc[e.o] + 1 /\ e.k \in DOMAIN Rec.alone[e.o], "own program", <<e.o, e.k>>)
            /\ Check(Same(e.out, Rec.alone[e.o][e.k]), "answer depends on another object", <<e.o, e.op, e.out, "alone", Rec.alone[e.o][e.k]>>)
            /\ Check(Same(Rec.again[l], e.out) /\ Rec.again[l].own = e.out.own, "answer changed afterwards", <<e.o, e.op>>)
            /\ pc' = [pc EXCEPT ![e.o] = @ + 1] /\ log' = log /\ cell' = cell
         /\ l' = l + 1 /\ c' = c
TEnd == /\ l = Len(Rec.events) + 1 /\ l' = l + 1
        /\ Check(\A o \in DOMAIN pc : pc[o] = Len(Rec.alone[o]), "session incomplete", pc)
        /\ PrintT("@@DONE|" \o Rec.id)
        /\ UNCHANGED <<c, pc, log, cell>>
TSpec == TInit /\ [][TStep \/ TEnd]_tvars
=============================================================================
