----------------------------- MODULE RemoteTrace -----------------------------
(* Conversations recorded by the HTTP server and the caller of the real      *)
(* client. Record: id, script (the answers the server gives in order), log   *)
(* (requests in order of arrival: [kind, token, job, body] with flags for    *)
(* the right token, job and submitted study), out (outcome of the call).     *)
EXTENDS Remote, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l, over
Rec == Data[c]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|request " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1 /\ over = "no"
Step ==
  /\ l <= Len(Rec.log)
  /\ LET q == Rec.log[l] IN
     /\ Check(over = "no", "request after the end", q)
     /\ Check(l # 1 \/ q.kind = "submit", "first request is not the submission", q)
     /\ Check(l = 1 \/ q.kind = "ask", IF q.kind = "submit" THEN "submitted again" ELSE "unknown request", q)
     /\ Check(q.token, "token", q)
     /\ Check(q.kind # "submit" \/ q.body, "submitted document is not the study", q)
     /\ Check(q.kind # "ask" \/ q.job, "asked for another job", q)
     /\ over' = (IF l <= Len(Rec.script) /\ Ends(Rec.script[l]) THEN Reaction(Rec.script[l]) ELSE over)
  /\ l' = l + 1 /\ c' = c
End == /\ l = Len(Rec.log) + 1
       /\ Check(over # "no", "client stopped before the job ended", Rec.out)
       /\ Check(over = "no" \/ Satisfies(Rec.out, over), "outcome", <<over, Rec.out>>)
       /\ Check(Rec.out.intact, "study changed by the call", Rec.id)
       /\ PrintT("@@DONE|" \o Rec.id)
       /\ l' = l + 1 /\ UNCHANGED <<c, over>>
Spec == Init /\ [][Step \/ End]_<<c, l, over>>
=============================================================================
