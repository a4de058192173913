------------------------------ MODULE PipeTrace ------------------------------
(* Composition sessions on the real code. Record: id, stages (declared       *)
(* [free, ins, outs] as lists), steps:                                       *)
(*   [act: "mk", list]            Pipeline(stages=...)                       *)
(*   [act: "addp", p, s]          pipeline p + stage s                       *)
(*   [act: "adds", a, s]          stage a + stage s                          *)
(*   [act: "run", p, cols]        pipeline p on data with these columns      *)
(*   [act: "call", s, cols]       stage s alone on data                      *)
(*   [act: "junk", pipe, p, s]    pipeline p or stage s + what is no stage    *)
(* each with outcome; shown / pshown: the interfaces of all stages and       *)
(* pipelines afterwards; ran: stages that ran; got: columns of the output    *)
EXTENDS Pipeline, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES c, l, pipes
Rec == Data[c]
Set(q) == {q[k] : k \in DOMAIN q}
St(k) == LET s == Rec.stages[k] IN [free |-> s.free, ins |-> Set(s.ins), outs |-> Set(s.outs)]
Chain(q) == [k \in DOMAIN q |-> St(q[k])]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|step " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1 /\ pipes = <<>>
Shows(q) == <<Set(q[1]), Set(q[2])>>
Iface(x) == <<x.ins, x.outs>>

Step ==
  /\ l <= Len(Rec.steps)
  /\ LET e == Rec.steps[l]
         made == CASE e.act = "mk" -> e.list [] e.act = "addp" -> Append(pipes[e.p], e.s) [] e.act = "adds" -> <<e.a, e.s>> [] OTHER -> <<>>
         ok == CASE e.act \in {"mk", "addp", "adds"} -> Accepted(Chain(made))
                [] e.act = "junk" -> FALSE
                [] e.act = "run" -> Interface(Chain(pipes[e.p])).ins \subseteq Set(e.cols)
                [] e.act = "call" -> St(e.s).ins \subseteq Set(e.cols)
         run == IF e.act = "run" THEN pipes[e.p] ELSE IF e.act = "call" THEN <<e.s>> ELSE <<>>
         want == IF e.act \in {"mk", "addp", "adds"} /\ ok THEN Append(pipes, made) ELSE pipes
     IN /\ Check(e.outcome = (IF ok THEN "ok" ELSE "ValueError"),
                 IF e.act \in {"run", "call"} THEN (IF ok THEN "data not accepted or run failed" ELSE "unfit data not rejected")
                 ELSE (IF ok THEN "sound chain rejected" ELSE "unsound chain accepted"), <<e, made>>)
        /\ Check(e.outcome = "ok" => ok, "accepted", e.act)
        /\ IF e.outcome # (IF ok THEN "ok" ELSE "ValueError")
           THEN l' = Len(Rec.steps) + 1 /\ UNCHANGED pipes
           ELSE /\ Check(e.ran = (IF ok THEN run ELSE <<>>), IF ok THEN "stages run" ELSE "a stage ran on rejected data", <<run, e.ran>>)
                /\ Check(run = <<>> \/ ~ok \/ Set(e.got) = After(Chain(run), Set(e.cols)), "output columns", <<e.cols, e.got>>)
                /\ Check(e.act # "run" \/ ~ok \/ Interface(Chain(run)).outs \subseteq Set(e.got), "declared column missing", <<e.cols, e.got>>)
                /\ Check(\A k \in DOMAIN Rec.stages : Shows(e.shown[k]) = Iface(St(k)), "stage altered", <<e.shown>>)
                /\ Check(Len(e.pshown) = Len(want) /\ \A k \in DOMAIN want : Shows(e.pshown[k]) = Iface(Interface(Chain(want[k]))),
                         IF Len(want) > Len(pipes) THEN "declared interface" ELSE "pipeline altered", <<want, e.pshown>>)
                /\ pipes' = want
                /\ l' = l + 1
  /\ c' = c
End == /\ l = Len(Rec.steps) + 1 /\ l' = l + 1
       /\ PrintT("@@DONE|" \o Rec.id) /\ UNCHANGED <<c, pipes>>
Spec == Init /\ [][Step \/ End]_<<c, l, pipes>>
=============================================================================
