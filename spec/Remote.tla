------------------------------- MODULE Remote -------------------------------
(* The remote solve protocol as the client sees it. The client submits the   *)
(* study, then asks for the result of the job it was given until the answer  *)
(* is an end; the answers are the server's free choice.                      *)
(* answer == [code, status, body]; body distinguishes what an error answer   *)
(* carries (text, a document that looks finished, or one that looks queued): *)
(* it must make no difference.                                               *)
EXTENDS Naturals, Sequences

Going == {"QUEUED", "COMPUTING"}
\* what the client must do on an answer, at the submission or at any poll
Reaction(a) ==
  CASE a.code \in {404, 403} -> "ValueError"
    [] a.code = 500 -> "IOError"
    [] a.code \notin {404, 403, 500, 200} -> "some error"
    [] a.status \in Going -> "ask again"
    [] a.status = "TERMINATED" -> "result"
    [] a.status = "ERROR" -> "message"
    [] OTHER -> "some error"
Ends(a) == Reaction(a) # "ask again"

\* observed outcomes that satisfy a reaction. outcome == [kind, same, says]
\*   kind: "result" | "raise"; same: the returned result is the one that was sent;
\*   value / io: the exception is a ValueError / an IOError; says: its text holds the server's message
Satisfies(o, r) ==
  CASE r = "result" -> o.kind = "result" /\ o.same
    [] r = "message" -> o.kind = "raise" /\ o.says
    [] r = "ValueError" -> o.kind = "raise" /\ o.value
    [] r = "IOError" -> o.kind = "raise" /\ o.io
    [] OTHER -> o.kind = "raise"
=============================================================================
