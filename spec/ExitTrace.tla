------------------------------ MODULE ExitTrace ------------------------------
(* Conformance: every recorded life of a child process against Exit.tla *)
EXTENDS Exit, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))

VARIABLES k, i, s
Init == k \in 1..Len(Traces) /\ i = 1 /\ s = XInit

Report(tr, ix, e, V) ==
  \A v \in V : PrintT("@VIOL " \o ToJson([id |-> tr.scn.id, fam |-> tr.scn.fam, ix |-> ix, ev |-> e.e, tags |-> v[1], why |-> v[2]]))

Next == LET tr == Traces[k] IN
        /\ i <= Len(tr.ev)
        /\ Report(tr, i, tr.ev[i], XGuards(Len(tr.scn.hooks), s, tr.ev[i]))
        /\ s' = XApply(s, tr.ev[i])
        /\ i' = i + 1 /\ k' = k

Finished == i = Len(Traces[k].ev) + 1 => PrintT("@CHECKED " \o Traces[k].scn.fam \o " " \o ToString(Traces[k].scn.id))
=============================================================================
