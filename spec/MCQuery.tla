-------------------------------- MODULE MCQuery --------------------------------
(* Fluent query sessions: partial queries are kept as handles and extended   *)
(* any number of times. The session state is the list of partial queries     *)
(* (sequences of selectors); a complete one (five selectors) is an answer.   *)
(* mode "random": long sessions; mode "all": every order x kind x form.      *)
EXTENDS Analyzer, TLC, Json, IOUtils, Randomization
Cfg == JsonDeserialize(IOEnv.CFG)
VARIABLES handles, acts, done
vars == <<handles, acts, done>>
R(S) == RandomElement(S)
Cols == {"network", "node", "scn", "t", "elem"}
KindSet == {Cfg.kinds[i] : i \in DOMAIN Cfg.kinds}
ColOf(sel) == IF sel.col \in Kinds THEN "elem" ELSE sel.col
Used(q) == {ColOf(q[i]) : i \in DOMAIN q}
Pool(col) == CASE col = "network" -> {Cfg.nets[i] : i \in DOMAIN Cfg.nets} [] col = "node" -> {Cfg.nodes[i] : i \in DOMAIN Cfg.nodes}
               [] col = "scn" -> 0..(Cfg.S - 1) [] col = "t" -> 0..(Cfg.H - 1) [] col = "link" -> {Cfg.nodes[i] : i \in DOMAIN Cfg.nodes}
               [] col \in {"src", "dst"} -> {Cfg.convs[i] : i \in DOMAIN Cfg.convs} [] OTHER -> {Cfg.names[i] : i \in DOMAIN Cfg.names}
Forms(col) == IF col \in {"scn", "t"} THEN {"all", "one", "list", "slice"} ELSE {"all", "one", "list"}
MaxOf(col) == IF col = "scn" THEN Cfg.S ELSE Cfg.H
RandSub(S) == SetToSeq(RandomSubset(R(2..Cardinality(S)), S))
RandSlice(n) == LET lo == R(0..n)  hi == R(lo..n) IN <<R({-1, lo, lo}), R({-1, hi, hi}), R({-1, 1, 2})>>
Sel(col, f) == [col |-> col, form |-> f,
                v |-> CASE f = "all" -> <<>>
                        [] f = "one" -> <<R(Pool(col))>>
                        [] f = "list" -> (IF Cardinality(Pool(col)) < 2 \/ R(1..6) = 1 THEN (IF R(1..2) = 1 THEN <<>> ELSE <<R(Pool(col))>>) ELSE RandSub(Pool(col)))
                        [] f = "slice" -> RandSlice(MaxOf(col))]
Init == handles = <<>> /\ acts = <<>> /\ done = FALSE
Extend(b, sel) == LET q == IF b = 0 THEN <<sel>> ELSE Append(handles[b], sel) IN
                  /\ handles' = IF Len(q) < 5 THEN Append(handles, q) ELSE handles
                  /\ acts' = Append(acts, [base |-> b, sel |-> sel, q |-> q])
Random == \E b \in {IF handles = <<>> THEN 0 ELSE R(0..Len(handles))} :
          \E k \in {IF b = 0 THEN "network" ELSE R(Cols \ Used(handles[b]))} :
          \E col \in {IF k = "elem" THEN R(KindSet) ELSE k} : \E f \in {R(Forms(col))} : \E s \in {Sel(col, f)} : Extend(b, s)
\* a selector named again: no such query gets an answer, the partial query stays what it was
Again == \E b \in {R({i \in DOMAIN handles : Len(handles[i]) > 1})} :
         \E k \in {R(Used(handles[b]) \ {"network"})} :
         \E col \in {IF k = "elem" THEN R(KindSet) ELSE k} : \E f \in {R(Forms(col))} : \E s \in {Sel(col, f)} :
           /\ acts' = Append(acts, [base |-> b, sel |-> s, q |-> <<>>])
           /\ UNCHANGED handles
CanAgain == \E i \in DOMAIN handles : Len(handles[i]) > 1
Turn == \E n \in {R(1..12)} : IF n = 1 /\ CanAgain THEN Again ELSE Random
All == \E k \in (IF handles = <<>> THEN {"network"} ELSE Cols \ Used(handles[Len(handles)])) :
       \E col \in (IF k = "elem" THEN KindSet ELSE {k}) : \E f \in Forms(col) : \E s \in {Sel(col, f)} : Extend(Len(handles), s)
Full == IF Cfg.mode = "all" THEN Len(acts) = 5 ELSE Len(acts) = Cfg.len
Next == \/ ~Full /\ (IF Cfg.mode = "all" THEN All ELSE Turn) /\ done' = done
        \/ Full /\ ~done /\ done' = TRUE /\ PrintT("@@RUN|" \o ToJson([i \in DOMAIN acts |-> [base |-> acts[i].base, sel |-> acts[i].sel, again |-> acts[i].q = <<>>]])) /\ UNCHANGED <<handles, acts>>
Spec == Init /\ [][Next]_vars
\* one selector per column, network first
WellFormed == \A i \in DOMAIN handles : Cardinality(Used(handles[i])) = Len(handles[i]) /\ handles[i][1].col = "network"
=============================================================================
