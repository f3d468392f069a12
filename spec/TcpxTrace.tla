------------------------------ MODULE TcpxTrace ------------------------------
(* Conformance: every recorded trace of the real code, event by event, against the specification.              *)
(* One initial state per trace; every failed guard is reported, with the properties it decides.                *)
EXTENDS Tcpx, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))
Statics == TLCEval([k \in 1..Len(Traces) |-> TLCEval(Static(Traces[k].scn))])

VARIABLES k, i, s
vars == <<k, i, s>>

Init == k \in 1..Len(Traces) /\ i = 1 /\ s = StInit(Statics[k])

Report(tr, ix, e, V) ==
  \A v \in V : PrintT("@VIOL " \o ToJson([id |-> tr.scn.id, fam |-> tr.scn.fam, ix |-> ix, ev |-> e.e, tags |-> v[1], why |-> v[2]]))

Next ==
  LET tr == Traces[k] IN
  /\ i <= Len(tr.ev)
  /\ LET e == tr.ev[i]
         V == GuardsAt(Statics[k], s, e) IN
     /\ Report(tr, i, e, V)
     /\ IF e.e \in {"crash", "hang"} THEN i' = Len(tr.ev) + 1 /\ s' = s
        ELSE i' = i + 1 /\ s' = Apply(Statics[k], s, e)
  /\ k' = k

Spec == Init /\ [][Next]_vars
Where == <<k, i>>
Finished == i = Len(Traces[k].ev) + 1 => PrintT("@CHECKED " \o Traces[k].scn.fam \o " " \o ToString(Traces[k].scn.id))
=============================================================================
