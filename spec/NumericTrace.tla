----------------------------- MODULE NumericTrace -----------------------------
(* Recorded uses of numeric arguments against Numeric. Record: id, H, S,     *)
(* dims, outcome ("ok"|"ValueError"|other), cells (values read by element    *)
(* access), later (the same after the caller overwrote his container),       *)
(* intact (the container was not touched by the study), table                *)
(* (values in the analysis table), beyond (every read past    *)
(* the declared sizes raised IndexError).                                    *)
EXTENDS Numeric, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, pc
Rec == Data[c]
Check(ok, clause, w) == (IF ok THEN TRUE ELSE PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|" \o ToString(w))) = TRUE
Init == c \in DOMAIN Data /\ pc = 0
Read == /\ pc = 0 /\ pc' = 1 /\ c' = c
        /\ IF ~Rec.junk /\ Accepted(Rec.dims, Rec.H, Rec.S)
           THEN LET M == Meaning(Rec.dims, Rec.H, Rec.S) IN
                /\ Check(Rec.outcome = "ok", "rejected", Rec.outcome)
                /\ (Rec.outcome = "ok") =>
                    /\ Check(Rec.cells = M, "value", <<Rec.cells, M>>)
                    /\ Check(Rec.later = M, "value follows the caller's container", <<Rec.later, M>>)
                    /\ Check(Rec.intact, "caller's container modified", Rec.intact)
                    /\ Check(Rec.table = M, "table", <<Rec.table, M>>)
                    /\ Check(Rec.beyond, "read beyond", Rec.beyond)
           ELSE Check(Rec.outcome = "ValueError", "not rejected", Rec.outcome)
        /\ PrintT("@@DONE|" \o Rec.id)
Spec == Init /\ [][Read]_<<c, pc>>
=============================================================================
