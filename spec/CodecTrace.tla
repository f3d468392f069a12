----------------------------- MODULE CodecTrace -----------------------------
(* Conformance: every recorded call of the codec and client functions against the specification.                  *)
EXTENDS Codec, Json, IOUtils, TLC

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACES))

VARIABLES k, i
vars == <<k, i>>
Init == k \in 1..Len(Traces) /\ i = 1

Report(tr, ix, e, V) ==
  \A v \in V : PrintT("@VIOL " \o ToJson([id |-> tr.scn.id, fam |-> tr.scn.fam, ix |-> ix, ev |-> e.e, tags |-> v[1], why |-> v[2]]))

Next == LET tr == Traces[k] IN
        /\ i <= Len(tr.ev)
        /\ Report(tr, i, tr.ev[i], CodecGuards(tr.ev[i]))
        /\ i' = i + 1 /\ k' = k

Finished == i = Len(Traces[k].ev) + 1 => PrintT("@CHECKED " \o Traces[k].scn.fam \o " " \o ToString(Traces[k].scn.id))
=============================================================================
