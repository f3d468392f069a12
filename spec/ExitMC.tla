------------------------------- MODULE ExitMC -------------------------------
(* BeforeExit (tcpx.go): signals are announced on a channel of one place before the call returns; a goroutine waits    *)
(* for one, runs the functions in order and exits.  The operating system drops a signal when the channel has no room   *)
(* and nobody is waiting.  All interleavings of signals (at any moment after the call has returned, as many as SIGS),  *)
(* judged by Exit.tla like the recorded runs.                                                                          *)
EXTENDS Exit, IOUtils, FiniteSets, TLC

BUG  == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE ""
SIGS == 3
NF   == 0..3

VARIABLES n, ret, buf, g, cur, left, mon, bad
vars == <<n, ret, buf, g, cur, left, mon, bad>>
Cap == IF BUG = "unbuf" THEN 0 ELSE 1

Ev(e) == /\ mon' = XApply(mon, e)
         /\ bad' = bad \cup XGuards(n, mon, e)
Quiet == UNCHANGED <<mon, bad>>

Init == n \in NF /\ ret = FALSE /\ buf = 0 /\ g = "start" /\ cur = 1 /\ left = SIGS /\ mon = XInit /\ bad = {}

Return == ~ret /\ ret' = TRUE /\ UNCHANGED <<n, buf, g, cur, left>> /\ Quiet
Wait   == g = "start" /\ g' = "wait" /\ UNCHANGED <<n, ret, buf, cur, left>> /\ Quiet
Signal == /\ ret /\ left > 0 /\ g # "gone" /\ left' = left - 1
          /\ IF g = "wait" /\ buf = 0 THEN g' = "run" /\ buf' = buf
             ELSE buf' = (IF buf < Cap THEN buf + 1 ELSE buf) /\ g' = g
          /\ UNCHANGED <<n, ret, cur>> /\ Ev([e |-> "sig"])
Take   == g = "wait" /\ buf > 0 /\ g' = "run" /\ buf' = buf - 1 /\ UNCHANGED <<n, ret, cur, left>> /\ Quiet
Begin  == g = "run" /\ cur <= n /\ g' = "in" /\ UNCHANGED <<n, ret, buf, cur, left>> /\ Ev([e |-> "hb", i |-> IF BUG = "reverse" THEN n + 1 - cur ELSE cur])
End    == g = "in" /\ g' = "run" /\ cur' = cur + 1 /\ UNCHANGED <<n, ret, buf, left>> /\ Ev([e |-> "he", i |-> IF BUG = "reverse" THEN n + 1 - cur ELSE cur])
Gone   == g = "run" /\ (cur > n \/ (BUG = "early" /\ cur = n)) /\ g' = "gone" /\ UNCHANGED <<n, ret, buf, cur, left>> /\ Ev([e |-> "exit", alive |-> FALSE, code |-> 0])
Steps == Return \/ Wait \/ Signal \/ Take \/ Begin \/ End \/ Gone
(* nothing more happens by itself: the process is looked at *)
Look   == /\ g # "gone" /\ ~mon.over /\ ret /\ g = "wait" /\ buf = 0
          /\ UNCHANGED <<n, ret, buf, g, cur, left>> /\ Ev([e |-> "exit", alive |-> TRUE, code |-> 0])
Next == Steps \/ Look
Spec == Init /\ [][Next]_vars
Good == bad = {}
=============================================================================
