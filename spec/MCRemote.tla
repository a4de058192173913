------------------------------ MODULE MCRemote ------------------------------
(* Client and server together: every sequence of answers with at most        *)
(* Cfg.max non-final ones, each with any end. Every complete conversation is *)
(* printed and replayed against the real client by a real HTTP server.       *)
EXTENDS Remote, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)     \* [max, ends]
Ans(c, s, b) == [code |-> c, status |-> s, body |-> b]
NonFinal == {Ans(200, s, "") : s \in Going}
Final == {Cfg.ends[k] : k \in DOMAIN Cfg.ends}

VARIABLES phase, sent, script, outcome, printed
vars == <<phase, sent, script, outcome, printed>>
Init == phase = "new" /\ sent = <<>> /\ script = <<>> /\ outcome = "" /\ printed = FALSE

\* the client's next request: submission first, then the job it was given
Request(r) == /\ phase \in {"new", "told"} /\ outcome = ""
              /\ r = (IF phase = "new" THEN "submit" ELSE "ask")
              /\ sent' = Append(sent, r) /\ phase' = "waiting"
              /\ UNCHANGED <<script, outcome, printed>>
Answer(a) == /\ phase = "waiting"
             /\ script' = Append(script, a)
             /\ phase' = (IF Ends(a) THEN "ended" ELSE "told")
             /\ outcome' = (IF Ends(a) THEN Reaction(a) ELSE "")
             /\ UNCHANGED <<sent, printed>>
Show == /\ phase = "ended" /\ ~printed /\ printed' = TRUE
        /\ PrintT("@@SCRIPT|" \o ToJson(script))
        /\ UNCHANGED <<phase, sent, script, outcome>>
Next == \/ \E r \in {"submit", "ask"} : Request(r)
        \/ \E a \in (IF Len(script) < Cfg.max THEN NonFinal \cup Final ELSE Final) : Answer(a)
        \/ Show
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

OneSubmission == sent # <<>> => sent[1] = "submit" /\ \A k \in 2..Len(sent) : sent[k] = "ask"
AskOnlyWhileGoing == \A k \in 1..Len(script) : k < Len(sent) => ~Ends(script[k])
Silence == phase = "ended" => Len(sent) = Len(script)
ResultOnlyWhenFinished == outcome = "result" => script[Len(script)].code = 200 /\ script[Len(script)].status = "TERMINATED"
Decided == [][outcome # "" => outcome' = outcome]_vars
Terminates == <>(phase = "ended")
=============================================================================
