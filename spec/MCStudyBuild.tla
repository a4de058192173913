---------------------------- MODULE MCStudyBuild ----------------------------
(* Behaviours of the builder: exhaustively (mode "all": every call sequence  *)
(* of length Cfg.len over small argument sets) or sampled (mode "random":    *)
(* long sequences over all argument sets and every handle obtained so far).  *)
(* Complete behaviours are printed and replayed on the real builder.         *)
EXTENDS StudyBuild, TLC, Json, IOUtils, Randomization

Cfg == JsonDeserialize(IOEnv.CFG)
Catalogue == Cfg.values       \* sequence of [ok, m]

VARIABLES st, handles, calls, last
vars == <<st, handles, calls, last>>

V(k) == Range(Cfg.sets[k])    \* argument sets: indices into the catalogue
Nets == Range(Cfg.nets)  Nodes == Range(Cfg.nodes)  Names == Range(Cfg.names)  Convs == Range(Cfg.convs)

\* all calls of one operation on a handle; one argument at a time leaves its ordinary value
Base == Cfg.base              \* [q, c, eff] ordinary values
CallsOf(h, op) ==
    CASE op = "network" -> {[h |-> h, op |-> op, name |-> n] : n \in Nets}
      [] op = "node" -> {[h |-> h, op |-> op, name |-> x] : x \in Nodes}
      [] op \in {"consumption", "production"} ->
            {[h |-> h, op |-> op, name |-> n, quantity |-> q, cost |-> Base.c] : n \in Names, q \in V("q")}
            \cup {[h |-> h, op |-> op, name |-> n, quantity |-> Base.q, cost |-> c] : n \in Names, c \in V("c")}
      [] op = "storage" ->
            LET b(n) == [h |-> h, op |-> op, name |-> n, capacity |-> Base.q, flow_in |-> Base.q, flow_out |-> Base.q,
                         cost |-> Base.c, init |-> 0, eff |-> Base.eff]
            IN {b(n) : n \in Names} \cup {[b(n) EXCEPT !.capacity = q] : n \in Names, q \in V("q")}
               \cup {[b(n) EXCEPT !.flow_in = q] : n \in Names, q \in V("q")} \cup {[b(n) EXCEPT !.flow_out = q] : n \in Names, q \in V("q")}
               \cup {[b(n) EXCEPT !.cost = c] : n \in Names, c \in V("cd")} \cup {[b(n) EXCEPT !.eff = e] : n \in Names, e \in V("e")}
               \cup {[b(n) EXCEPT !.init = i] : n \in Names, i \in IF Cardinality(V("q")) > 1 THEN {-1, 0, 2, 9} ELSE {-1, 0, 2}}
      [] op = "link" ->
            {[h |-> h, op |-> op, src |-> a, dest |-> b, quantity |-> q, cost |-> Base.c] : a, b \in Nodes, q \in V("q")}
            \cup {[h |-> h, op |-> op, src |-> a, dest |-> b, quantity |-> Base.q, cost |-> c] : a, b \in Nodes, c \in V("c")}
      [] op = "to_converter" -> {[h |-> h, op |-> op, name |-> n, ratio |-> r] : n \in Convs, r \in V("r")}
      [] op = "converter" ->
            {[h |-> h, op |-> op, name |-> n, to_network |-> a, to_node |-> x, max |-> q, cost |-> Base.c] : n \in Convs, a \in Nets, x \in Nodes, q \in V("m")}
            \cup {[h |-> h, op |-> op, name |-> n, to_network |-> a, to_node |-> x, max |-> Base.q, cost |-> c] : n \in Convs, a \in Nets, x \in Nodes, c \in V("cd")}

\* calls of which every argument leaves its ordinary value, drawn among the values that are fine alone
Fit(k) == LET S == {v \in V(k) : Good(v) /\ ~Neg(v)} IN IF S = {} THEN V(k) ELSE S
FitE == LET S == {v \in V("e") : Good(v) /\ ~Neg(v) /\ ~Above1(v)} IN IF S = {} THEN V("e") ELSE S
GoodV(k) == LET S == {v \in V(k) : Good(v)} IN IF S = {} THEN V(k) ELSE S
OneOf(S) == RandomElement(S)
MixedCalls(h, op) ==
    CASE op \in {"consumption", "production"} ->
            {[h |-> h, op |-> op, name |-> n, quantity |-> OneOf(Fit("q")), cost |-> OneOf(GoodV("c"))] : n \in Names}
      [] op = "storage" ->
            {[h |-> h, op |-> op, name |-> n, capacity |-> OneOf(Fit("q")), flow_in |-> OneOf(Fit("q")), flow_out |-> OneOf(Fit("q")),
              cost |-> OneOf(GoodV("cd")), init |-> OneOf({0, 1, 3, 7}), eff |-> OneOf(FitE)] : n \in Names}
      [] op = "link" -> {[h |-> h, op |-> op, src |-> a, dest |-> b, quantity |-> OneOf(Fit("q")), cost |-> OneOf(GoodV("c"))] : a, b \in Nodes}
      [] op = "converter" -> {[h |-> h, op |-> op, name |-> n, to_network |-> a, to_node |-> x, max |-> OneOf(Fit("m")), cost |-> OneOf(GoodV("cd"))]
                              : n \in Convs, a \in Nets, x \in Nodes}
      [] OTHER -> CallsOf(h, op)

Ops == <<"network", "node", "consumption", "production", "storage", "link", "to_converter", "converter">>
H(i) == IF i = 0 THEN StudyHandle ELSE handles[i]

Do(c) == LET h == H(c.h)
             ok == Accepts(st, h, c)
         IN /\ Offers(h, c.op)
            /\ calls' = Append(calls, [call |-> c, ok |-> ok])
            /\ st' = IF ok THEN Effect(st, h, c) ELSE st
            /\ handles' = IF ok THEN Append(handles, Gives(h, c)) ELSE handles
            /\ last' = [c |-> c, ok |-> ok, h |-> h]

Init == st = Empty /\ handles = <<>> /\ calls = <<>> /\ last = [ok |-> TRUE]
AllNext == /\ Len(calls) < Cfg.len
           /\ \E i \in 0..Len(handles) : \E k \in DOMAIN Ops : Offers(H(i), Ops[k]) /\ \E c \in CallsOf(i, Ops[k]) : Do(c)
\* one random call: handle, operation weighted by Cfg.weights, argument
Offered(i) == {k \in DOMAIN Cfg.weights : Offers(H(i), Cfg.weights[k])}
RandomNext == /\ Len(calls) < Cfg.len
              \* quantifying over a singleton fixes the random choice
              /\ \E lo \in {IF RandomElement(1..3) = 1 /\ Len(handles) > 3 THEN Len(handles) - 2 ELSE 0} :
                 \E i \in {RandomElement(lo..Len(handles))} : \E k \in {RandomElement(Offered(i))} :
                 \E mixed \in {RandomElement(1..3) = 1} :
                 \E c \in {RandomElement(IF mixed THEN MixedCalls(i, Cfg.weights[k]) ELSE CallsOf(i, Cfg.weights[k]))} : Do(c)
Publish == /\ Len(calls) = Cfg.len /\ last # [ok |-> FALSE]
         /\ PrintT("@@RUN|" \o ToJson(calls))
         /\ last' = [ok |-> FALSE] /\ UNCHANGED <<st, handles, calls>>
Next == (IF Cfg.mode = "all" THEN AllNext ELSE RandomNext) \/ Publish
Spec == Init /\ [][Next]_vars

Healthy == WellFormed(st)
HandlesLive == \A i \in DOMAIN handles : LET h == handles[i] IN
                  /\ h.kind \in {"net", "node"} => NetIdx(st, h.net) # 0
                  /\ h.kind = "node" => NodeIdx(st, h.net, h.node) # 0
\* a rejected call changes nothing; an accepted one changes one place only
Framed == [][ "c" \in DOMAIN last' =>
                /\ ~last'.ok => st' = st
                /\ LET c == last'.c  h == last'.h  x == IF c.op = "link" THEN c.src ELSE h.node IN
                   /\ c.op \in {"consumption", "production", "storage", "link"} => SameElsewhere(st, st', h.net, x) /\ st'.conv = st.conv
                   /\ c.op \in {"to_converter", "converter"} => st'.nets = st.nets
                   /\ c.op \in {"network", "node"} => SameElsewhere(st, st', "", "") /\ st'.conv = st.conv ]_vars
=============================================================================
