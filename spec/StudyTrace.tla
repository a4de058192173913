------------------------------ MODULE StudyTrace ------------------------------
(* Recorded builder sessions against StudyBuild. A record is                 *)
(*   id, steps : << [call, outcome, after] >>                                *)
(* where after is the study observed after the call (same on rejection) in   *)
(* the form of StudyBuild's st. Each step is judged from the OBSERVED study  *)
(* before it: C09 judges outcomes and rejected calls, C10 accepted calls.    *)
EXTENDS StudyBuild, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.DATA)
Catalogue == In.values
Data == In.recs
Prop == IOEnv.PROP
VARIABLES c, l, st, handles, rej
Rec == Data[c]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|call " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1 /\ st = Empty /\ handles = <<>> /\ rej = 0
\* the place a handle denotes is there in the observed study
Present(h) == CASE h.kind = "node" -> NodeIdx(st, h.net, h.node) # 0
                [] h.kind = "net" -> NetIdx(st, h.net) # 0
                [] OTHER -> TRUE
Step == /\ l <= Len(Rec.steps)
        /\ LET e == Rec.steps[l]
               h == IF e.call.h = 0 THEN StudyHandle ELSE handles[e.call.h]
               here == Present(h)
               ok == here /\ Accepts(st, h, e.call)
               readable == e.outcome \in {"ok", "ValueError"}
           IN /\ IF ~here THEN Check(Prop # "C10", "place of the handle is gone", <<e.call, st>>)
                 ELSE IF Prop = "C09"
                 THEN /\ Check((e.outcome = "ok") = ok, IF ok THEN "rejected a valid call" ELSE "accepted an invalid call", <<e.call, e.outcome>>)
                      /\ Check(readable, "wrong exception", <<e.call, e.outcome>>)
                      /\ Check(e.outcome = "ok" \/ e.after = st, "rejected call left a trace", <<e.call, st, e.after>>)
                 ELSE IF ok
                      THEN /\ Check(e.outcome = "ok", "raised", <<e.call, e.outcome>>)
                           /\ Check(e.outcome # "ok" \/ e.after = Effect(st, h, e.call), "wrong effect",
                                    <<e.call, "expected", Effect(st, h, e.call), "observed", e.after>>)
                      ELSE TRUE
              \* the handles of the session are those the caller really got
              /\ handles' = IF e.outcome = "ok" THEN Append(handles, Gives(h, e.call)) ELSE handles
              /\ st' = e.after
              /\ rej' = IF ok THEN rej ELSE rej + 1
              /\ l' = IF here /\ readable THEN l + 1 ELSE Len(Rec.steps) + 1
        /\ c' = c
End == /\ l = Len(Rec.steps) + 1 /\ l' = l + 1
       /\ PrintT("@@DONE|" \o Rec.id \o "|" \o ToString(rej))
       /\ UNCHANGED <<c, st, handles, rej>>
Spec == Init /\ [][Step \/ End]_<<c, l, st, handles, rej>>
=============================================================================
