------------------------------ MODULE ServerMC ------------------------------
(* All interleavings of the server of Server.tla on small scenarios, judged by Tcpx.tla.                            *)
(* The environment variable MCSET selects the scenarios, BUG a broken variant of the design.                        *)
EXTENDS Server, IOUtils, SequencesExt

BUG == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE ""
SET == IF "MCSET" \in DOMAIN IOEnv THEN IOEnv.MCSET ELSE "all"

CFG == [lis |-> <<[n |-> "tcp", a |-> "a1", mode |-> "pack", buf |-> 0]>>, tls |-> FALSE, mar |-> "json", max |-> 0, pool |-> FALSE, sig |-> FALSE,
        hb |-> [on |-> FALSE, iv |-> 40000, id |-> 1392, thru |-> FALSE, loss |-> FALSE], auth |-> [on |-> FALSE, dl |-> 40000, id |-> 1393, thru |-> FALSE],
        onmsg |-> FALSE, occ |-> TRUE, ocl |-> TRUE, dl |-> 0, rdl |-> 0, wdl |-> 0, y |-> 0, prog |-> <<>>]
LIS2 == [n |-> "tcp", a |-> "a2", mode |-> "pack", buf |-> 0]
CALL(op, id, n) == [op |-> op, id |-> id, u |-> "", ks |-> <<>>, n |-> n]
USEK(k) == [op |-> "use", id |-> 0, u |-> "", ks |-> <<k>>, n |-> 0]
H1 == <<CALL("add", 1, 0)>>                                   \* one handler
H3 == <<CALL("global", 0, 1), USEK("a"), CALL("add", 1, 0)>>   \* three links
A(j, a, n, s) == [k |-> j, a |-> a, n |-> n, s |-> s, x |-> 0]
U(do) == [id |-> 1, rt |-> "none", u |-> "", bl |-> 0, mal |-> "", pipe |-> 0, do |-> do, size |-> 20, decl |-> 16, hk |-> "ok"]
HB == [U(<<>>) EXCEPT !.id = 1392]
BIG == [U(<<>>) EXCEPT !.size = 120, !.decl = 116]
CUT(u) == [u EXCEPT !.size = 10]         \* only its first bytes come
CN(us) == [l |-> 1, units |-> us, raw |-> <<>>, oc |-> <<>>, cl |-> <<>>, ls |-> <<>>, win |-> 0, rem |-> "r"]
ON(c, n) == [c EXCEPT !.oc = <<A(0, "online", 0, n)>>]
ST(op, c, u, n, s) == [op |-> op, c |-> c, u |-> u, n |-> n, s |-> s, g |-> FALSE]
D(c) == <<ST("dial", c, 0, 0, "")>>
PU(c, u) == <<ST("push", c, u, 0, "")>>
FIN(c) == <<ST("fin", c, 0, 0, "")>>
SHUT(c) == <<ST("shut", c, 0, 0, "")>>
Q == <<ST("settle", 0, 0, 0, "")>>
AT(t) == <<ST("adv", 0, 0, t, "")>>
REL(n) == <<ST("release", 0, 0, n, "")>>
STOP(all) == <<ST("stop", 0, 0, 0, all)>>
START == <<ST("start", 0, 0, 0, "")>>
RESTART(all, n) == <<ST("restart", 0, 0, n, all)>>
S(set, cfg, conns, steps) == [id |-> 0, fam |-> set, cfg |-> cfg, conns |-> conns, steps |-> Q \o steps \o Q, names |-> <<"u1", "u2">>]

POOL == [CFG EXCEPT !.prog = H1, !.pool = TRUE]
on(n) == A(1, "online", 0, n)
off == A(1, "offline", 0, "")
look(n) == A(1, "lookup", 0, n)
send(n) == A(1, "sendto", 5, n)
cl == A(1, "close", 0, "")
rep == A(1, "reply", 5, "Reply")
HBC == [CFG EXCEPT !.prog = <<CALL("hb", 0, 0)>> \o H1, !.hb.on = TRUE, !.hb.loss = TRUE]
AUC == [CFG EXCEPT !.prog = H1, !.auth.on = TRUE, !.auth.thru = TRUE]
SIG == [CFG EXCEPT !.prog = H1, !.sig = TRUE]

(* links 1..3 of a chain; what each does *)
Chains == {<<>>, <<A(1, "next", 0, "")>>, <<A(1, "next", 0, ""), A(2, "next", 0, "")>>, <<A(2, "abort", 0, "")>>, <<A(1, "next", 0, ""), A(2, "abort", 0, "")>>,
           <<A(1, "next", 0, ""), A(3, "abort", 0, ""), A(1, "next", 0, "")>>, <<A(1, "abort", 0, ""), A(1, "next", 0, "")>>, <<A(2, "panic", 0, "")>>,
           <<A(1, "next", 0, ""), A(2, "next", 0, ""), A(3, "panic", 0, "")>>, <<A(1, "next", 0, ""), A(1, "next", 0, "")>>}
Req == {<<A(1, "sreq", 7, "q1"), A(3, "greq", 0, "q1")>>, <<A(3, "greq", 0, "q1"), A(3, "sreq", 8, "q1"), A(3, "greq", 0, "q1")>>}

ScnSet ==
  \* two requests of one connection, every pair of chains; request scope
  {S("chain", [CFG EXCEPT !.prog = H3], <<CN(<<U(x), U(y)>>)>>, D(1) \o PU(1, 2)) : x \in Chains \cup Req, y \in Chains \cup Req}
  \* pipes: every pair of chains inside a pipe, a message after it, pipes cut off by the end of the stream or an oversized message
  \cup {S("pipe", [CFG EXCEPT !.prog = H3], <<CN(<<[U(x) EXCEPT !.pipe = 2], U(y)>>)>>, D(1) \o PU(1, 2)) : x \in Chains \cup Req, y \in Chains \cup Req}
  \cup {S("pipe", [CFG EXCEPT !.prog = H1], <<CN(<<[U(<<rep>>) EXCEPT !.pipe = 2], U(<<rep>>), U(<<rep>>)>>)>>, D(1) \o PU(1, 3) \o FIN(1)),
        S("pipe", [CFG EXCEPT !.prog = H1], <<CN(<<[U(<<rep>>) EXCEPT !.pipe = 3], U(<<A(1, "panic", 0, "")>>), CUT(U(<<>>))>>)>>, D(1) \o PU(1, 3) \o FIN(1)),
        S("pipe", [CFG EXCEPT !.prog = H1, !.max = 50], <<CN(<<[U(<<rep>>) EXCEPT !.pipe = 3], BIG, U(<<>>)>>)>>, D(1) \o PU(1, 3)),
        S("pipe", [CFG EXCEPT !.prog = H1], <<CN(<<[U(<<A(1, "block", 1, "")>>) EXCEPT !.pipe = 2], U(<<>>), U(<<rep>>)>>)>>, D(1) \o PU(1, 3) \o Q \o REL(1))}
  \* how a connection ends: by its client before, between and inside messages, by its handler, by an oversized message; replies racing with it
  \cup {S("life", [CFG EXCEPT !.prog = H1, !.max = 50], <<CN(us)>>, D(1) \o x \o y)
        : us \in {<<U(<<rep>>), CUT(U(<<>>))>>, <<U(<<cl>>), U(<<rep>>)>>, <<U(<<cl, rep>>)>>, <<U(<<rep>>), BIG>>, <<U(<<A(1, "isup", 0, ""), cl, A(1, "isup", 0, "")>>)>>, <<U(<<cl>>), U(<<cl>>)>>},
          x \in {<<>>, PU(1, 1)}, y \in {FIN(1), SHUT(1), PU(1, 1) \o FIN(1), PU(1, 1) \o Q \o SHUT(1)}}
  \cup {S("life", [CFG EXCEPT !.prog = H1, !.max = 50], <<CN(<<U(<<rep>>), BIG, U(<<>>)>>)>>, D(1) \o PU(1, 3))}
  \* the same with all the watchers
  \cup {S("life", [SIG EXCEPT !.hb.on = TRUE, !.hb.loss = TRUE, !.auth.on = TRUE, !.auth.thru = TRUE], <<CN(<<U(x)>>)>>, D(1) \o PU(1, 1) \o y)
        : x \in {<<cl>>, <<A(1, "deny", 0, "")>>, <<>>}, y \in {<<>>, FIN(1)}}
  \* a blocked handler; connection scope
  \cup {S("iso", [CFG EXCEPT !.prog = H1], <<CN(<<U(<<A(1, "block", 1, "")>>), U(<<rep>>)>>), CN(<<U(<<rep>>)>>)>>, D(1) \o PU(1, 1) \o D(2) \o PU(1, 2) \o PU(2, 1) \o Q \o FIN(1) \o Q \o REL(1)),
        S("scope", [CFG EXCEPT !.prog = H1], <<CN(<<U(<<A(1, "scon", 3, "c1"), A(1, "gcon", 0, "c1")>>), U(<<A(1, "scon", 4, "c1")>>)>>), CN(<<U(<<A(1, "gcon", 0, "c1")>>)>>)>>,
          D(1) \o D(2) \o Q \o PU(1, 2) \o PU(2, 1)),
        S("scope", [CFG EXCEPT !.prog = H1], <<CN(<<U(<<A(1, "scon", 3, "c1"), A(1, "gcon", 0, "c1")>>), U(<<A(1, "gcon", 0, "c1"), A(1, "scon", 4, "c1")>>)>>)>>, D(1) \o PU(1, 2))}
  \* the pool: two connections and what they do at the same time
  \cup {S("pool", POOL, <<CN(<<U(x)>>), CN(<<U(y)>>)>>, D(1) \o D(2) \o Q \o PU(1, 1) \o PU(2, 1) \o z)
        : x \in {<<on("u1")>>, <<on("u1"), off>>, <<on("u1"), on("u2")>>, <<on("u1"), cl>>}, y \in {<<on("u1")>>, <<look("u1")>>, <<on("u1"), off>>, <<on("u1"), look("u1")>>}, z \in {<<>>, FIN(1)}}
  \cup {S("pool", POOL, <<ON(CN(<<U(<<cl>>)>>), "u1"), ON(CN(<<U(<<look("u1")>>)>>), "u1")>>, D(1) \o D(2) \o PU(1, 1) \o PU(2, 1)),
        S("pool", POOL, <<ON(CN(<<U(<<on("u2")>>)>>), "u1"), CN(<<U(<<on("u1")>>)>>)>>, D(1) \o Q \o D(2) \o PU(1, 1) \o PU(2, 1) \o SHUT(1))}
  \* sending to a name
  \cup {S("send", POOL, <<ON(CN(<<U(x)>>), "u1"), CN(<<U(<<send("u1")>>)>>)>>, D(1) \o D(2) \o PU(2, 1) \o z)
        : x \in {<<cl>>, <<off>>, <<on("u2")>>, <<send("u1")>>}, z \in {PU(1, 1), FIN(1), SHUT(1)}}
  \* heartbeats: intervals of 40 ms
  \cup {S("hb", HBC, <<CN(<<HB, HB>>)>>, D(1) \o x) : x \in {AT(119000) \o Q \o AT(121000), AT(100000) \o PU(1, 1) \o Q \o AT(210000) \o Q \o AT(300000),
                                                           AT(79000) \o PU(1, 1) \o AT(119000) \o PU(1, 2) \o AT(230000) \o Q \o AT(300000), PU(1, 1) \o FIN(1) \o AT(200000),
                                                           AT(120000) \o PU(1, 1) \o Q \o AT(300000)}}
  \cup {S("hb", HBC, <<CN(<<U(<<cl>>)>>), CN(<<HB>>)>>, D(1) \o D(2) \o AT(90000) \o PU(2, 1) \o AT(120000) \o PU(1, 1) \o Q \o AT(300000))}
  \* auth: 40 ms
  \cup {S("auth", AUC, <<CN(<<U(x), U(y)>>)>>, D(1) \o AT(t) \o PU(1, 2) \o Q \o AT(100000))
        : x \in {<<A(1, "pass", 0, "")>>, <<A(1, "deny", 0, "")>>, <<A(1, "pass", 0, ""), A(1, "deny", 0, "")>>}, y \in {<<A(1, "deny", 0, "")>>, <<A(1, "pass", 0, "")>>, <<>>}, t \in {10000, 40000}}
  \* Stop, Start, Restart
  \cup {S("stop", [x EXCEPT !.lis = <<CFG.lis[1], LIS2>>], <<CN(<<U(<<rep>>)>>), [CN(<<U(<<rep>>)>>) EXCEPT !.l = 2]>>, D(1) \o Q \o PU(1, 1) \o y \o Q \o D(2) \o Q \o PU(2, 1))
        : x \in {SIG, [CFG EXCEPT !.prog = H1]}, y \in {STOP(""), STOP("all"), STOP("all") \o Q \o START, STOP("") \o Q \o START, RESTART("", 2), RESTART("all", 1), STOP("all") \o STOP(""), START, STOP("") \o Q \o START \o Q \o STOP("all") \o Q \o START}}
  \cup {S("stop", x, <<ON(CN(<<U(<<rep>>)>>), "u1"), ON(CN(<<U(<<off>>)>>), "u2")>>, D(1) \o Q \o D(2) \o y \o PU(1, 1) \o z)
        : x \in {POOL, [SIG EXCEPT !.pool = TRUE]}, y \in {<<>>, Q}, z \in {STOP(""), STOP("all"), Q \o STOP("all"), Q \o PU(2, 1) \o STOP("all") \o Q \o START}}
  \cup {S("stop", [HBC EXCEPT !.sig = TRUE], <<CN(<<HB>>)>>, D(1) \o Q \o STOP("") \o AT(100000) \o PU(1, 1) \o Q \o AT(200000) \o Q \o STOP("all"))}

(* MCSTRIDE = n: only every n-th scenario of the set (the quick checks) *)
STRIDE == IF "MCSTRIDE" \in DOMAIN IOEnv THEN atoi(IOEnv.MCSTRIDE) ELSE 1
Scns == LET all == TLCEval(SetToSeq({x \in ScnSet : SET = "all" \/ x.fam = SET})) IN TLCEval(SelectSeq([i \in 1..Len(all) |-> <<i, all[i]>>], LAMBDA x : x[1] % STRIDE = 0))
Statics == TLCEval([i \in 1..Len(Scns) |-> TLCEval(Static(Scns[i][2]))])

ASSUME TLCSet(1, Statics)      \* computed once

VARIABLES k, z, mon
vars == <<k, z, mon>>
P == TLCGet(1)[k]

Init == /\ k \in 1..Len(TLCGet(1))
        /\ z = ZInit(TLCGet(1)[k], BUG)
        /\ mon = [s |-> StInit(TLCGet(1)[k]), bad |-> {}]

Do(x) == z' = x[1] /\ mon' = Feed(P, mon, x[2]) /\ k' = k

Next == LET I == Internal(P, z) IN
        \/ \E x \in I : Do(x)
        \/ ~HasOwn(P, z) /\ \E x \in EnvSteps(P, z, I = {}) : Do(x)
        \/ z.es > Len(P.scn.steps) /\ I = {} /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
Good == mon.bad = {}
=============================================================================
