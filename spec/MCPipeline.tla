----------------------------- MODULE MCPipeline -----------------------------
(* Every chain of at most Cfg.len stages over Cfg.cols: acceptance at        *)
(* composition is exactly the ability to run. Chains are printed and built   *)
(* and run in the real code.                                                 *)
EXTENDS Pipeline, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)      \* [cols, len, print]
C == {Cfg.cols[k] : k \in DOMAIN Cfg.cols}
Free == [free |-> TRUE, ins |-> {}, outs |-> {}]
Stages == {Free} \cup [free : {FALSE}, ins : SUBSET C, outs : SUBSET C]

VARIABLES chain
Init == chain = <<>>
Next == /\ Len(chain) < Cfg.len
        /\ \E s \in Stages : chain' = Append(chain, s)
        /\ (Cfg.print => PrintT("@@CHAIN|" \o ToJson(chain'))) = TRUE
Spec == Init /\ [][Next]_chain

I == Interface(chain)
\* an accepted chain runs on all data providing what it declares to need, and provides what it declares
Sound == chain # <<>> /\ Accepted(chain) => \A D \in SUBSET C : I.ins \subseteq D => CanRun(chain, D) /\ I.outs \subseteq After(chain, D)
\* data lacking a declared column cannot be run
Needed == chain # <<>> => \A D \in SUBSET C : ~(I.ins \subseteq D) => ~CanRun(chain, D)
\* a rejected chain gets stuck on the data it declares to be enough
Exact == chain # <<>> /\ ~Accepted(chain) => ~CanRun(chain, I.ins)
\* grouping does not matter: a prefix may be replaced by its interface
Grouping == \A k \in 1..Len(chain) - 1 :
              LET p == Interface(SubSeq(chain, 1, k)) IN Interface(<<p>> \o SubSeq(chain, k + 1, Len(chain))) = I
=============================================================================
