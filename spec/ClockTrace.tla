----------------------------- MODULE ClockTrace -----------------------------
(* Judges the durations recorded from real solves (microseconds).             *)
EXTENDS SolveClock, Json, IOUtils, TLC
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, end
Rec == Data[c]
TInit == c \in DOMAIN Data /\ end = FALSE
TNext == /\ ~end /\ end' = TRUE /\ c' = c
         /\ (\A b \in BenchBad(Rec.bench, Rec.S, Rec.wall, Rec.slack, Rec.fine) : PrintT("@@FAIL|" \o Rec.id \o "|" \o b[1] \o "|" \o ToString(b))) = TRUE
         /\ PrintT("@@DONE|" \o Rec.id)
TSpec == TInit /\ clock = 0 /\ begun = <<>> /\ built = <<>> /\ solved = <<>> /\ gather = 0 /\ bench = <<>>
         /\ [][TNext /\ UNCHANGED cvars]_<<c, end, cvars>>
=============================================================================
