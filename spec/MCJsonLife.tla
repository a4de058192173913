------------------------------ MODULE MCJsonLife ------------------------------
(* Random lives of studies and documents, printed for replay.                *)
EXTENDS JsonLife, TLC, Json, IOUtils, Randomization
Cfg == JsonDeserialize(IOEnv.CFG)
Catalogue == Cfg.values
VARIABLES objs, docs, acts, done
vars == <<objs, docs, acts, done>>
R(S) == RandomElement(S)
RR(s) == s[R(DOMAIN s)]
Call == LET op == RR(Cfg.ops)  n == RR(Cfg.nets)  x == RR(Cfg.nodes)
            b == [op |-> op, net |-> n, node |-> x]
        IN CASE op \in {"consumption", "production"} -> b @@ [name |-> RR(Cfg.names), quantity |-> RR(Cfg.sets.q), cost |-> RR(Cfg.sets.c)]
             [] op = "storage" -> b @@ [name |-> RR(Cfg.names), capacity |-> RR(Cfg.sets.q), flow_in |-> RR(Cfg.sets.q), flow_out |-> RR(Cfg.sets.q),
                                        cost |-> RR(Cfg.sets.cd), init |-> R({0, 2}), eff |-> RR(Cfg.sets.e)]
             [] op = "link" -> b @@ [src |-> RR(Cfg.nodes), dest |-> RR(Cfg.nodes), quantity |-> RR(Cfg.sets.q), cost |-> RR(Cfg.sets.c)]
             [] op = "to_converter" -> b @@ [name |-> RR(Cfg.convs), ratio |-> RR(Cfg.sets.r)]
             [] op = "converter" -> b @@ [name |-> RR(Cfg.convs), to_network |-> RR(Cfg.nets), to_node |-> RR(Cfg.nodes), max |-> RR(Cfg.sets.m), cost |-> RR(Cfg.sets.cd)]
New == /\ Len(objs) < 1 /\ objs' = Append(objs, Obj(Empty, 0)) /\ docs' = docs /\ acts' = Append(acts, [act |-> "new"])
Change == \E i \in {R(DOMAIN objs)} : \E c \in {Call} :
            /\ objs' = [objs EXCEPT ![i] = Obj(CallEffect(@.content, c), 0)]
            /\ docs' = Forget(docs, i)
            /\ acts' = Append(acts, [act |-> "change", i |-> i, call |-> c])
Dump == \E i \in {R(DOMAIN objs)} : docs' = Append(docs, DumpOf(objs, i)) /\ acts' = Append(acts, [act |-> "dump", i |-> i]) /\ objs' = objs
Text == /\ docs # <<>> /\ \E d \in {R(DOMAIN docs)} : docs' = Append(docs, Doc(docs[d].content, docs[d].source)) /\ acts' = Append(acts, [act |-> "text", d |-> d])
        /\ objs' = objs
Load == /\ docs # <<>> /\ \E d \in {R(DOMAIN docs)} : objs' = Append(objs, LoadOf(docs, d)) /\ acts' = Append(acts, [act |-> "load", d |-> d])
        /\ docs' = docs
Init == objs = <<>> /\ docs = <<>> /\ acts = <<>> /\ done = FALSE
Pick == \E k \in {R(1..10)} :
          IF objs = <<>> THEN New
          ELSE IF k <= 5 \/ (docs = <<>> /\ k > 7) THEN Change
          ELSE IF k <= 7 THEN Dump ELSE IF k = 8 THEN Text ELSE Load
Next == \/ Len(acts) < Cfg.len /\ Pick /\ done' = done
        \/ Len(acts) = Cfg.len /\ ~done /\ done' = TRUE /\ PrintT("@@RUN|" \o ToJson(acts)) /\ UNCHANGED <<objs, docs, acts>>
Spec == Init /\ [][Next]_vars
\* a document whose source has not changed still shows it; an unchanged loaded object still equals its document
Faithful == /\ \A d \in DOMAIN docs : docs[d].source # 0 => docs[d].content = objs[docs[d].source].content
            /\ \A i \in DOMAIN objs : objs[i].origin # 0 => objs[i].content = docs[objs[i].origin].content
            /\ \A i \in DOMAIN objs : WellFormed(objs[i].content)
Immutable == [][\A d \in DOMAIN docs : docs'[d].content = docs[d].content]_vars
=============================================================================
