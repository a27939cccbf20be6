------------------------------ MODULE Contract ------------------------------
(* Checks recorded runs of the real library against the contract (Monitor).  *)
EXTENDS Monitor, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES t, l, m
Init == t \in 1..Len(Traces) /\ l = 0 /\ m = M0
Fin == [ev |-> << <<9>> >>]
Next ==
  /\ m.bad = {} /\ l < Len(Traces[t].acts)
  /\ l' = l + 1 /\ t' = t
  /\ LET tr == Traces[t]
         o == IF l + 1 <= Len(tr.steps) THEN tr.steps[l + 1] ELSE Fin
         m1 == Observe(tr.cfg, m, tr.acts[l + 1], o)
     IN /\ m' = m1
        /\ IF m1.bad # {}
           THEN PrintT(<<"REJECT", tr.id, l + 1, ToJson([why |-> m1.bad, act |-> tr.acts[l + 1], got |-> o, expected |-> [ev |-> "contract"]])>>)
           ELSE IF l + 1 = Len(tr.acts) THEN PrintT(<<"ACCEPT", tr.id>>) ELSE TRUE
Spec == Init /\ [][Next]_<<t, l, m>>
View == <<t, l, m.bad>>
=============================================================================
