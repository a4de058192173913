------------------------------ MODULE Isolation ------------------------------
(* Independent objects of one process: studies, analyzers, plots, pipelines, *)
(* shufflers. Each runs its own program of operations; a session interleaves *)
(* them. The answer of an operation is a function of the object and of its   *)
(* own operations so far, hence the same as in a process where the object is *)
(* alone; and an answer, once given, belongs to who asked and stays.         *)
(* Leak makes the model break this (a cell shared by all objects reaches the *)
(* answers): the clauses must then fail, which the check makes sure of.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lens,      \* sequence: how long each object's program is
          Leak       \* FALSE: the specification; TRUE: the broken variant

Obj == DOMAIN Lens
VARIABLES pc,        \* per object: operations done
          log,       \* <<[o, k, out]>>: the session so far
          cell       \* state shared by objects, which no answer may show

ivars == <<pc, log, cell>>
Alone(o, k) == <<o, k, 0>>                         \* the answer to o's k-th operation in its own process
Answer(o, k) == <<o, k, IF Leak THEN cell ELSE 0>>
IInit == pc = [o \in Obj |-> 0] /\ log = <<>> /\ cell = 0
Do(o) == /\ pc[o] < Lens[o]
         /\ pc' = [pc EXCEPT ![o] = @ + 1]
         /\ log' = Append(log, [o |-> o, k |-> pc[o] + 1, out |-> Answer(o, pc[o] + 1)])
         /\ cell' = o
INext == \E o \in Obj : Do(o)
ISpec == IInit /\ [][INext]_ivars

\* every object sees its own program in order and its own answers
Isolated == /\ \A i \in DOMAIN log : log[i].out = Alone(log[i].o, log[i].k)
            /\ \A o \in Obj : LET mine == SelectSeq(log, LAMBDA e : e.o = o) IN
                 Len(mine) = pc[o] /\ \A k \in DOMAIN mine : mine[k].k = k
\* what was answered stays
Stays == [][\A i \in DOMAIN log : log'[i] = log[i]]_ivars
=============================================================================
