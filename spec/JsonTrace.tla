------------------------------- MODULE JsonTrace -------------------------------
(* Recorded lives against JsonLife. Step record:                             *)
(*   act, i / d / call   what was done                                       *)
(*   outcome             "ok" | exception                                    *)
(*   objs                content of every live object observed afterwards    *)
(*   texts               canonical text of every document observed afterwards*)
(*   same / other        pairs of live objects found == / != afterwards      *)
(*   eq                  for load: loaded == the object the document shows   *)
EXTENDS JsonLife, TLC, Json, IOUtils
In == JsonDeserialize(IOEnv.DATA)
Catalogue == In.values
Data == In.recs
VARIABLES c, l, objs, docs, texts
Rec == Data[c]
Fail(clause, w) == PrintT("@@FAIL|" \o Rec.id \o "|" \o clause \o "|step " \o ToString(l) \o " " \o ToString(w))
Check(ok, clause, w) == (IF ok THEN TRUE ELSE Fail(clause, w)) = TRUE
Init == c \in DOMAIN Data /\ l = 1 /\ objs = <<>> /\ docs = <<>> /\ texts = <<>>

Contents(o) == [k \in DOMAIN o |-> o[k].content]
Bring(o, seen) == [k \in DOMAIN o |-> [o[k] EXCEPT !.content = seen[k]]]

\* equality of objects is equality of content; networks, nodes, converters and sources are looked up by
\* name: their order is no part of it
Bag(s, F(_)) == {F(s[i]) : i \in DOMAIN s}
Unordered(st) == [nets |-> Bag(st.nets, LAMBDA n : [name |-> n.name, nodes |-> ToSet(n.nodes)]),
                  conv |-> Bag(st.conv, LAMBDA v : [v EXCEPT !.src = ToSet(@)])]
EqualityOK(o, e) ==
  LET P == {<<e.same[k][1], e.same[k][2]>> : k \in DOMAIN e.same}
      Q == {<<e.other[k][1], e.other[k][2]>> : k \in DOMAIN e.other}
      K == DOMAIN o
  IN \A i, j \in K : /\ (<<i, j>> \in P) # (<<i, j>> \in Q)
                     /\ o[i] = o[j] => <<i, j>> \in P
                     /\ (o[i] # o[j] /\ <<i, j>> \in P) => (Rec.deep /\ Unordered(o[i]) = Unordered(o[j]))

Step ==
  /\ l <= Len(Rec.steps)
  /\ LET e == Rec.steps[l]
         want == CASE e.act = "new" -> Append(objs, Obj(e.objs[Len(e.objs)], 0))
                   [] e.act = "change" -> [objs EXCEPT ![e.i] = Obj(IF "call" \in DOMAIN e THEN CallEffect(@.content, e.call) ELSE e.objs[e.i], 0)]
                   [] e.act = "load" -> Append(objs, LoadOf(docs, e.d))
                   [] OTHER -> objs
         wantdocs == CASE e.act = "dump" -> Append(docs, DumpOf(objs, e.i))
                      [] e.act = "text" -> Append(docs, Doc(docs[e.d].content, docs[e.d].source))
                      [] e.act = "change" -> Forget(docs, e.i)
                      [] OTHER -> docs
         okcall == IF e.act = "change" /\ "call" \in DOMAIN e THEN CallOK(objs[e.i].content, e.call) ELSE TRUE
     IN /\ Check(e.outcome = (IF okcall THEN "ok" ELSE "ValueError"), "outcome", <<e.act, e.outcome>>)
        /\ IF e.outcome \notin {"ok", "ValueError"} \/ (e.outcome # "ok" /\ e.act # "change")
           THEN l' = Len(Rec.steps) + 1 /\ UNCHANGED <<objs, docs, texts>>
           ELSE /\ Check(e.objs = Contents(want), IF e.act = "load" THEN "loaded object differs" ELSE "objects changed",
                         <<e.act, "expected", Contents(want), "observed", e.objs>>)
                /\ Check(Len(e.texts) = Len(wantdocs) /\ \A d \in DOMAIN texts : e.texts[d] = texts[d], "document changed", <<e.act, texts, e.texts>>)
                \* dumping an unchanged loaded object gives its document again; dumping twice gives the same
                /\ Check(e.act # "dump" \/ objs[e.i].origin = 0 \/ e.texts[Len(e.texts)] = texts[objs[e.i].origin], "second conversion differs",
                         IF e.act = "dump" /\ objs[e.i].origin # 0 THEN <<e.texts[Len(e.texts)], texts[objs[e.i].origin]>> ELSE <<>>)
                /\ Check(e.act # "dump" \/ \A d \in DOMAIN docs : docs[d].source = e.i => e.texts[Len(e.texts)] = texts[d], "conversion not repeatable", e.act)
                /\ Check(e.act # "text" \/ e.texts[Len(e.texts)] = texts[e.d], "text changed document", e.act)
                /\ Check(e.act # "load" \/ docs[e.d].source = 0 \/ e.eq, "loaded object not equal", e.act)
                /\ Check(EqualityOK(e.objs, e), "equality", <<e.act, e.same, e.other>>)
                /\ objs' = (IF Len(e.objs) = Len(want) THEN Bring(want, e.objs) ELSE want)
                /\ docs' = wantdocs
                /\ texts' = e.texts
                /\ l' = l + 1
  /\ c' = c
End == /\ l = Len(Rec.steps) + 1 /\ l' = l + 1
       /\ PrintT("@@DONE|" \o Rec.id)
       /\ UNCHANGED <<c, objs, docs, texts>>
Spec == Init /\ [][Step \/ End]_<<c, l, objs, docs, texts>>
=============================================================================
