----------------------------- MODULE MCIsolation -----------------------------
(* All interleavings of programs of given lengths, printed for replay.       *)
EXTENDS Isolation, TLC, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)
CLens == Cfg.lens
CLeak == Cfg.leak
Whole == \A o \in Obj : pc[o] = Lens[o]
Finish == Whole /\ cell # -1 /\ cell' = -1 /\ UNCHANGED <<pc, log>>
          /\ PrintT("@@RUN|" \o ToJson([i \in DOMAIN log |-> log[i].o]))
Next == INext \/ Finish
Spec == IInit /\ [][Next]_ivars
=============================================================================
