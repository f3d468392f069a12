------------------------------ MODULE ExitEnv ------------------------------
(* Lives of a process that has called BeforeExit: "exit" random, "xexit" every signal, number of functions and      *)
(* moment (right after BeforeExit, at rest, while serving, after a stop), second signals, and ordinary ends.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

FAM   == IOEnv.FAM
TIER  == IOEnv.TIER
COUNT == atoi(IOEnv.COUNT)
BASE  == atoi(IOEnv.BASE)
OUT   == IOEnv.OUT
R(S)  == RandomElement(S)
Pct(n) == R(1..100) <= n
W(q)  == q[R(1..Len(q))]

Sigs == {"INT", "TERM", "QUIT"}
O(op, s, n) == [op |-> op, s |-> s, n |-> n]
S(i, y, hooks, early, ops) == [id |-> i, fam |-> FAM, seed |-> i, y |-> y, hooks |-> hooks, early |-> early, ops |-> ops]

ROps(n) == [j \in 1..n |-> W(<<O("wait", "", R(1..20)), O("serve", "", 0), O("stop", "", 0), O("start", "", 0)>>)]
RScn(i) == LET nh == R(0..4)
               z == R(1..10)
               end == IF z <= 5 THEN <<O("sig", R(Sigs), 0)>> ELSE IF z <= 7 THEN <<O("self", R(Sigs), 0)>> ELSE IF z = 8 THEN <<O("finish", "", 0)>> ELSE <<>>
               more == IF Pct(50) THEN <<O("wait", "", R(1..10)), O("sig", R(Sigs), 0)>> ELSE <<>>
               early == Pct(25) IN
           S(i, R({0, 1, 2, 4}), [j \in 1..nh |-> R({0, 1, 8, 25})], IF early THEN R(Sigs) ELSE "",
             IF early THEN more ELSE ROps(R(0..3)) \o end \o (IF z <= 7 THEN more ELSE <<>>))

Hooks == {<<>>, <<0>>, <<5>>, <<5, 0>>, <<0, 5>>, <<0, 0, 0>>, <<5, 1, 3>>}
Before == {<<>>, <<O("serve", "", 0)>>, <<O("wait", "", 15)>>, <<O("serve", "", 0), O("stop", "", 0)>>}
XSet == {<<0, h, g, <<>>>> : h \in Hooks, g \in Sigs}
        \cup {<<0, h, "", b \o <<O(op, g, 0)>>>> : h \in IF TIER = "quick" THEN {<<5, 1, 3>>} ELSE Hooks, b \in Before, op \in {"sig", "self"}, g \in Sigs}
        \cup {<<0, h, "", <<O("sig", g, 0), O("wait", "", 2), O("sig", g2, 0)>>>> : h \in {<<>>, <<5, 5>>}, g \in Sigs, g2 \in Sigs}
        \cup {<<0, h, "", b \o <<O("finish", "", 0)>>>> : h \in {<<>>, <<1, 1>>}, b \in Before}
        \cup {<<0, h, "", b>> : h \in {<<>>, <<1, 1>>}, b \in Before}

Enum == LET q == SetToSeq(XSet) IN [j \in 1..Len(q) |-> S(j, q[j][1], q[j][2], q[j][3], q[j][4])]

VARIABLES n, out
X == FAM = "xexit"
Init == n = 0 /\ out = <<>>
Next == \/ X /\ n = 0 /\ n' = COUNT /\ \E e \in {Enum} : out' = e
        \/ ~X /\ n < COUNT /\ n' = n + 1 /\ \E s \in {RScn(BASE + n + 1)} : out' = Append(out, s)
Written == n = COUNT => ndJsonSerialize(OUT, out)
Stop == n < COUNT
=============================================================================
