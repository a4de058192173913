------------------------------ MODULE Pipeline ------------------------------
(* Stage chains and their declared interfaces.                               *)
(* stage == [free, ins, outs]: a free stage accepts any columns and keeps    *)
(* them; a restricted stage needs the columns ins, consumes them and leaves  *)
(* the columns outs; every other column passes through.                      *)
EXTENDS Naturals, Sequences, FiniteSets

\* ---- what a chain declares
Link(p, s) == IF s.free THEN p
              ELSE IF p.free THEN [free |-> FALSE, ins |-> s.ins, outs |-> s.outs]
              ELSE [free |-> FALSE, ins |-> p.ins, outs |-> s.outs \cup (p.outs \ s.ins)]
Linkable(p, s) == s.free \/ p.free \/ s.ins \subseteq p.outs
RECURSIVE Interface(_)
Interface(ch) == IF Len(ch) = 1 THEN ch[1] ELSE Link(Interface(SubSeq(ch, 1, Len(ch) - 1)), ch[Len(ch)])
Accepted(ch) == \A k \in 2..Len(ch) : Linkable(Interface(SubSeq(ch, 1, k - 1)), ch[k])

\* ---- what a chain does to a set of columns
Cols(s, D) == IF s.free THEN D ELSE (D \ s.ins) \cup s.outs
RECURSIVE After(_, _)
After(ch, D) == IF ch = <<>> THEN D ELSE After(Tail(ch), Cols(Head(ch), D))
CanRun(ch, D) == \A k \in DOMAIN ch : ch[k].free \/ ch[k].ins \subseteq After(SubSeq(ch, 1, k - 1), D)
=============================================================================
