---------------------------- MODULE HelperTrace ----------------------------
(* Recorded traces of the helpers, checked against HelperContract. *)
EXTENDS HelperContract, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, st
vars == <<t, i, st>>
Init == t \in 1..Len(Traces) /\ i = 0 /\ st = HInit
Next == /\ i < Len(Traces[t].ev)
        /\ i' = i + 1
        /\ st' = Step(st, Traces[t].ev[i + 1])
        /\ UNCHANGED t
        /\ (i' = Len(Traces[t].ev) => PrintT("DONE " \o ToString(t)))
        /\ (st'.viol # st.viol => PrintT("VIOL " \o ToJson([t |-> t, v |-> st'.viol \ st.viol])))
Spec == Init /\ [][Next]_vars
=============================================================================
