------------------------------ MODULE StudyBuild ------------------------------
(* The fluent study builder as a state machine.                              *)
(*   st       the study: networks (ordered), their nodes (ordered) with      *)
(*            consumptions, productions, storages, links, and converters     *)
(*   handles  every object obtained so far: [kind, net, node]; kind "net"    *)
(*            (network level), "node" (node level), "end" (what a converter  *)
(*            declaration returns: no current network)                       *)
(* A call is a record [h, op, ...]; h = 0 addresses the study itself.        *)
(* Values come from a catalogue Val: [ok, m] with ok = the shape is valid    *)
(* for the study and m the meaning as a matrix of hundredths.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Val      \* sequence of values, see above

Some(M, P(_)) == \E i \in DOMAIN M : \E j \in DOMAIN M[i] : P(M[i][j])
Good(v) == Val[v].ok
Neg(v) == Some(Val[v].m, LAMBDA x : x < 0)
Above1(v) == Some(Val[v].m, LAMBDA x : x > 100)
Mean(v) == Val[v].m

Empty == [nets |-> <<>>, conv |-> <<>>]
Handle(k, n, x) == [kind |-> k, net |-> n, node |-> x]
StudyHandle == Handle("study", "", "")

Idx(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
NetIdx(st, n) == Idx(st.nets, LAMBDA e : e.name = n)
NodeIdx(st, n, x) == IF NetIdx(st, n) = 0 THEN 0 ELSE Idx(st.nets[NetIdx(st, n)].nodes, LAMBDA e : e.name = x)
ConvIdx(st, c) == Idx(st.conv, LAMBDA e : e.name = c)
Node(st, n, x) == st.nets[NetIdx(st, n)].nodes[NodeIdx(st, n, x)]

AddNet(st, n) == IF NetIdx(st, n) # 0 THEN st ELSE [st EXCEPT !.nets = Append(@, [name |-> n, nodes |-> <<>>])]
NewNode(x) == [name |-> x, cons |-> <<>>, prod |-> <<>>, stor |-> <<>>, link |-> <<>>]
AddNode(st, n, x) == IF NodeIdx(st, n, x) # 0 THEN st
                     ELSE [st EXCEPT !.nets[NetIdx(st, n)].nodes = Append(@, NewNode(x))]
\* append an element to list k of node (n, x)
Add(st, n, x, k, e) == [st EXCEPT !.nets[NetIdx(st, n)].nodes[NodeIdx(st, n, x)][k] = Append(@, e)]
AddConv(st, c) == IF ConvIdx(st, c) # 0 THEN st
                  ELSE [st EXCEPT !.conv = Append(@, [name |-> c, dn |-> "", dx |-> "", max |-> <<>>, cost |-> <<>>, src |-> <<>>])]

Named(s, name) == \E i \in DOMAIN s : s[i].name = name

(* ------------------------------------------------------------------ which calls a handle offers *)
Offers(h, op) == CASE h.kind = "study" -> op = "network"
                   [] h.kind = "net"  -> op \in {"network", "node", "link", "converter"}
                   [] h.kind = "node" -> op \in {"network", "node", "link", "converter", "consumption", "production", "storage", "to_converter"}
                   [] OTHER -> op \in {"network", "converter"}

(* ------------------------------------------------------------------ C09: a call is accepted exactly when *)
Accepts(st, h, c) ==
    CASE c.op \in {"network", "node"} -> TRUE
      [] c.op = "consumption" -> /\ ~Named(Node(st, h.net, h.node).cons, c.name)
                                 /\ Good(c.quantity) /\ ~Neg(c.quantity) /\ Good(c.cost)
      [] c.op = "production" -> /\ ~Named(Node(st, h.net, h.node).prod, c.name)
                                /\ Good(c.quantity) /\ ~Neg(c.quantity) /\ Good(c.cost)
      [] c.op = "storage" -> /\ ~Named(Node(st, h.net, h.node).stor, c.name)
                             /\ Good(c.flow_in) /\ Good(c.flow_out) /\ Good(c.capacity) /\ Good(c.eff) /\ Good(c.cost)
                             /\ ~Neg(c.flow_in) /\ ~Neg(c.flow_out) /\ ~Neg(c.capacity) /\ c.init >= 0
                             /\ ~Neg(c.eff) /\ ~Above1(c.eff)
      [] c.op = "link" -> /\ NodeIdx(st, h.net, c.src) # 0 /\ NodeIdx(st, h.net, c.dest) # 0
                          /\ \A i \in DOMAIN Node(st, h.net, c.src).link : Node(st, h.net, c.src).link[i].dest # c.dest
                          /\ Good(c.quantity) /\ ~Neg(c.quantity) /\ Good(c.cost)
      [] c.op = "to_converter" -> /\ Good(c.ratio)
                                  /\ (ConvIdx(st, c.name) # 0 => \A i \in DOMAIN st.conv[ConvIdx(st, c.name)].src :
                                        LET s == st.conv[ConvIdx(st, c.name)].src[i] IN s.net # h.net \/ s.node # h.node)
      [] c.op = "converter" -> /\ (ConvIdx(st, c.name) # 0 => st.conv[ConvIdx(st, c.name)].dn = "")
                               /\ NodeIdx(st, c.to_network, c.to_node) # 0
                               /\ Good(c.max) /\ Good(c.cost)

(* ------------------------------------------------------------------ C10: the effect of an accepted call *)
Effect(st, h, c) ==
    CASE c.op = "network" -> AddNet(st, c.name)
      [] c.op = "node" -> AddNode(st, h.net, c.name)
      [] c.op = "consumption" -> Add(st, h.net, h.node, "cons", [name |-> c.name, quantity |-> Mean(c.quantity), cost |-> Mean(c.cost)])
      [] c.op = "production" -> Add(st, h.net, h.node, "prod", [name |-> c.name, quantity |-> Mean(c.quantity), cost |-> Mean(c.cost)])
      [] c.op = "storage" -> Add(st, h.net, h.node, "stor", [name |-> c.name, capacity |-> Mean(c.capacity), flow_in |-> Mean(c.flow_in),
                                  flow_out |-> Mean(c.flow_out), cost |-> Mean(c.cost), init |-> c.init, eff |-> Mean(c.eff)])
      [] c.op = "link" -> Add(st, h.net, c.src, "link", [dest |-> c.dest, quantity |-> Mean(c.quantity), cost |-> Mean(c.cost)])
      [] c.op = "to_converter" -> LET s1 == AddConv(st, c.name) IN
                                  [s1 EXCEPT !.conv[ConvIdx(s1, c.name)].src = Append(@, [net |-> h.net, node |-> h.node, ratio |-> Mean(c.ratio)])]
      [] c.op = "converter" -> LET s1 == AddConv(st, c.name) IN
                               [s1 EXCEPT !.conv[ConvIdx(s1, c.name)] = [@ EXCEPT !.dn = c.to_network, !.dx = c.to_node, !.max = Mean(c.max), !.cost = Mean(c.cost)]]

\* what the call gives back to the caller
Gives(h, c) == CASE c.op = "network" -> Handle("net", c.name, "")
                 [] c.op = "node" -> Handle("node", h.net, c.name)
                 [] c.op = "link" -> Handle("net", h.net, "")
                 [] c.op = "converter" -> Handle("end", "", "")
                 [] OTHER -> h

(* ------------------------------------------------------------------ properties of the builder *)
Uniq(s, f(_)) == \A i, j \in DOMAIN s : i # j => f(s[i]) # f(s[j])
NonNeg(M) == ~Some(M, LAMBDA x : x < 0)
WellFormed(st) ==
    /\ Uniq(st.nets, LAMBDA e : e.name) /\ Uniq(st.conv, LAMBDA e : e.name)
    /\ \A i \in DOMAIN st.nets : LET N == st.nets[i] IN
         /\ Uniq(N.nodes, LAMBDA e : e.name)
         /\ \A k \in DOMAIN N.nodes : LET x == N.nodes[k] IN
              /\ Uniq(x.cons, LAMBDA e : e.name) /\ Uniq(x.prod, LAMBDA e : e.name) /\ Uniq(x.stor, LAMBDA e : e.name)
              /\ Uniq(x.link, LAMBDA e : e.dest)
              /\ \A e \in Range(x.cons) \cup Range(x.prod) \cup Range(x.link) : NonNeg(e.quantity)
              /\ \A e \in Range(x.link) : \E q \in Range(N.nodes) : q.name = e.dest
              /\ \A e \in Range(x.stor) : NonNeg(e.capacity) /\ NonNeg(e.flow_in) /\ NonNeg(e.flow_out) /\ NonNeg(e.eff)
                                          /\ e.init >= 0 /\ ~Some(e.eff, LAMBDA y : y > 100)
    /\ \A v \in Range(st.conv) : /\ Uniq(v.src, LAMBDA e : <<e.net, e.node>>)
                                 /\ v.dn # "" => NodeIdx(st, v.dn, v.dx) # 0
                                 /\ \A s \in Range(v.src) : NodeIdx(st, s.net, s.node) # 0
\* frame: nothing but the addressed place changes
SameElsewhere(a, b, n, x) == \A i \in DOMAIN a.nets : \A k \in DOMAIN a.nets[i].nodes :
      (a.nets[i].name # n \/ a.nets[i].nodes[k].name # x) => b.nets[i].nodes[k] = a.nets[i].nodes[k]
=============================================================================
