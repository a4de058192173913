----------------------------- MODULE FrameTrace -----------------------------
(* Frames recorded from the real code. Record: id, ops, frames (the frame    *)
(* given, then the frame after each stage called alone), piped (results of   *)
(* the same stages as pipelines built in several ways), intact (the caller's *)
(* data after every call is what it was), error (first exception, "" if none)*)
EXTENDS Frames, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l
Rec == Data[c]
Fr(x) == [rows |-> x.rows, cells |-> {x.cells[k] : k \in DOMAIN x.cells}]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|stage " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1
Step == /\ l < Len(Rec.frames)
        /\ LET op == Rec.ops[l] f == Fr(Rec.frames[l]) g == Fr(Rec.frames[l + 1]) IN
           /\ Check(Len(Rec.frames[l + 1].cells) = Cardinality(g.cells), "column repeated", op)
           /\ Check(g.rows = f.rows, "rows", <<op, f.rows, g.rows>>)
           /\ Check(Does(f, op, g), op.op, <<op, "given", f, "returned", g>>)
        /\ l' = l + 1 /\ c' = c
End == /\ l = Len(Rec.frames) /\ l' = l + 1 /\ c' = c
       /\ Check(Rec.error = "", "error", Rec.error)
       /\ Check(Rec.error # "" \/ Len(Rec.frames) = Len(Rec.ops) + 1, "frames missing", Rec.ops)
       /\ Check(Rec.error # "" \/ \A k \in DOMAIN Rec.piped : Fr(Rec.piped[k]) = Fr(Rec.frames[l]), "pipeline differs from its stages", <<Rec.piped, Rec.frames[l]>>)
       /\ Check(Rec.intact, "caller's data modified", Rec.ops)
       /\ PrintT("@@DONE|" \o Rec.id)
Spec == Init /\ [][Step \/ End]_<<c, l>>
=============================================================================
