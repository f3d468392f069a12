------------------------------- MODULE Server -------------------------------
(* The server as it is built: the goroutines of tcpx.go and context.go with every step that touches state they      *)
(* share.  Its behaviours are judged by Tcpx.tla: each step yields the events the real code would have logged, and  *)
(* these are fed to the same Guards and Apply that judge recorded traces.  Checked by TLC over all interleavings     *)
(* (ServerMC) it shows two things: the design satisfies the properties, and the guards are not stronger than a       *)
(* correct implementation can meet under any schedule.  z.bug selects a deliberately broken variant of the design;   *)
(* each of them has to be noticed (tools/mcself.sh), which shows that the guards are not weaker than intended.       *)
(*                                                                                                                   *)
(* Everything is a pure function of the state z; StepsOf(P, z, p) is the set of <<new state, events>> process p can  *)
(* make.  Processes: <<"A", l, g>> accept loop of the g-th listener at address l, <<"R", c>> reader of connection c, <<"B"|"H"|"U", c>> its *)
(* broadcast, heartbeat and auth watchers, <<"M", c, m>> the goroutine of a message (or pipe) starting with unit m,   *)
(* <<"S">> a Stop/Start/Restart call, <<"X", c>> the network carrying replies to the client.                          *)
EXTENDS Tcpx

ABORT == 1000

Ev(z, name, r) == [e |-> name, t |-> z.t] @@ r
Kill(z, p) == [z EXCEPT !.pr = Without1(@, p)]
Put(z, p, r) == [z EXCEPT !.pr[p] = r]
Spawn(z, p, r) == [z EXCEPT !.pr = @ @@ (p :> r)]
Bug(z, b) == z.bug = b

-----------------------------------------------------------------------------
CoInit == [st |-> "no", dead |-> FALSE, off |-> FALSE, end |-> FALSE, un |-> "", hb |-> 0, au |-> 0, out |-> <<>>, pu |-> 0, fin |-> FALSE, shut |-> FALSE,
           gen |-> 0, cs |-> <<>>, rq |-> <<>>, cls |-> 0]

ZInit(P, bug) ==
  [t |-> 0, bug |-> bug, es |-> 1, rel |-> {}, co |-> [c \in 1..P.N |-> CoInit], pool |-> [n \in SeqToSet(P.names) |-> 0],
   st |-> "run", open |-> {}, gen |-> 1, runs |-> 1, shutgen |-> {}, pend |-> <<>>, sret |-> {},
   pr |-> [p \in {<<"A", l, 1>> : l \in 1..P.L} |-> [pc |-> "listen", cc |-> 0, c |-> 0, i |-> 1, ph |-> 0, r |-> 0, gen |-> 1]]]

-----------------------------------------------------------------------------
(* the pool: each operation is one critical section *)

Owned(z, n, c) == n # "" /\ n \in DOMAIN z.pool /\ (z.pool[n] = c \/ Bug(z, "evict"))
Release(z, n, c) == IF Owned(z, n, c) THEN [z EXCEPT !.pool[n] = 0] ELSE z
OnlineConn(z, n, c) ==
  IF z.co[c].off /\ ~Bug(z, "oncheck") THEN <<z, 0>>
  ELSE LET z1 == IF z.co[c].un # n /\ ~Bug(z, "twonames") THEN Release(z, z.co[c].un, c) ELSE z IN
       <<[z1 EXCEPT !.co[c].un = n, !.pool[n] = c], 1>>
OfflineConn(z, c) == <<Release(z, z.co[c].un, c), IF z.co[c].un = "" THEN 0 ELSE 1>>

(* CloseConn: close the connection, tell the watchers, mark offline, leave the pool.  Any goroutine may be in it. *)
CloseStep(P, z, c, cc) ==      \* <<state, events>> of its cc-th step
  LET order == IF Bug(z, "late") THEN <<1, 2, 4, 3>> ELSE <<1, 2, 3, 4>> IN
  CASE order[cc] = 1 -> IF z.co[c].dead THEN <<z, <<>>>> ELSE <<[z EXCEPT !.co[c].dead = TRUE], <<Ev(z, "sclose", [c |-> c])>>>>
    [] order[cc] = 2 -> <<[z EXCEPT !.co[c].end = TRUE], <<>>>>
    [] order[cc] = 3 -> <<[z EXCEPT !.co[c].off = TRUE], <<>>>>
    [] order[cc] = 4 -> <<IF P.cfg.pool THEN OfflineConn(z, c)[1] ELSE z, <<>>>>

-----------------------------------------------------------------------------
(* one action of a handler or callback: phases 0 begin, 1 effect, 2 return; f holds [ph, r, cc] *)

IsOne(a) == a.a \in {"abort", "sreq", "greq"}
Dst(a, c) == c
OpB(z, a, o, c, m) ==
  LET b == [o |-> o, c |-> c, m |-> m, k |-> "", a |-> a.a, s |-> a.s, n |-> a.n, x |-> a.x] IN
  Ev(z, "b", IF a.a \in {"reply", "sendto"} THEN b @@ [tg |-> o, id |-> a.n, u |-> ""] ELSE b)

Write(z, d, o, a) == IF z.co[d].dead THEN <<z, 0>> ELSE <<[z EXCEPT !.co[d].out = Append(@, [t |-> o, ok |-> TRUE, id |-> a.n, u |-> ""])], 1>>

(* the effect: a set of <<state, frame>>; frame.ph = 2 when it is over *)
Effect(P, z, f, a, o, c) ==
  LET fin(zz, r) == {<<zz, [f EXCEPT !.ph = 2, !.r = r], <<>>>>} IN
  CASE a.a = "online" -> LET x == OnlineConn(z, a.s, c) IN fin(x[1], IF P.cfg.pool THEN x[2] ELSE 0)
    [] a.a = "offline" -> LET x == OfflineConn(z, c) IN fin(x[1], x[2])
    [] a.a = "lookup" -> fin(z, z.pool[a.s])
    [] a.a = "sendto" -> IF f.cc = 0 THEN LET d == z.pool[a.s] IN
                                          IF d = 0 THEN fin(z, 0) ELSE {<<z, [f EXCEPT !.cc = d], <<>>>>}
                         ELSE IF z.co[f.cc].off THEN fin(z, 0)
                         ELSE LET x == Write(z, f.cc, o, a) IN fin(x[1], x[2])
    [] a.a = "reply" -> LET x == Write(z, c, o, a) IN fin(x[1], x[2])
    [] a.a = "close" -> LET k == f.cc + 1
                            x == CloseStep(P, z, c, k) IN
                        {<<x[1], IF k = 4 THEN [f EXCEPT !.ph = 2, !.r = 1, !.cc = 0] ELSE [f EXCEPT !.cc = k], x[2]>>}
    [] a.a = "beat" -> fin([z EXCEPT !.co[c].hb = 1], 1)
    [] a.a = "pass" -> fin([z EXCEPT !.co[c].au = IF @ = 0 THEN 1 ELSE @], 1)
    [] a.a = "deny" -> fin([z EXCEPT !.co[c].au = IF @ = 0 THEN -1 ELSE @], 1)
    [] a.a = "block" -> IF a.n \in z.rel THEN fin(z, 1) ELSE {}
    [] a.a = "isup" -> fin(z, IF z.co[c].off THEN 0 ELSE 1)
    [] a.a = "scon" -> fin([z EXCEPT !.co[c].cs = Append(@, <<a.s, a.n>>)], 1)
    [] a.a = "gcon" -> fin(z, KeyVal(z.co[c].cs, a.s))

-----------------------------------------------------------------------------
(* the goroutine of a message: the chain with its offset, Next and Abort, as in context.go *)

FullChain(P, c, m) == P.chain[c][m] \o (IF P.inv[c][m] THEN <<"~hb">> ELSE <<>>)
ActsAt(P, c, m, j) == SelectSeq(Unit(P, c, m)["do"], LAMBDA a : a.k = j)
MRec(q) == [q |-> q, m |-> 0, off |-> 0, stk |-> <<>>, rq |-> <<>>]
LINK(j) == [f |-> "l", j |-> j, ai |-> 1, ph |-> 0, r |-> 0, cc |-> 0]
LOOP == [f |-> "n", i |-> 0]
Top(q) == q[Len(q)]
Pop(q) == SubSeq(q, 1, Len(q) - 1)

MSteps(P, z, p) ==
  LET r == z.pr[p]
      c == p[2]
      m == r.m IN
  IF r.stk = <<>>
  THEN IF r.q = <<>> THEN {<<Kill(z, p), <<>>>>}
       ELSE LET m1 == Head(r.q) IN
            IF FullChain(P, c, m1) = <<>> THEN {<<Put(z, p, [r EXCEPT !.q = Tail(@)]), <<>>>>}
            ELSE {<<Put(z, p, [r EXCEPT !.q = Tail(@), !.m = m1, !.off = 1, !.stk = <<[LOOP EXCEPT !.i = 1]>>, !.rq = <<>>]), <<>>>>}
  ELSE LET f == Top(r.stk)
           links == FullChain(P, c, m) IN
  IF f.f = "n"
  THEN LET off == IF Bug(z, "localoff") THEN f.i ELSE r.off IN
       IF off <= Len(links)
       THEN IF links[off] = "~hb"
            THEN {<<[Put(z, p, [r EXCEPT !.off = @ + 1, !.stk = Append(Pop(r.stk), [f EXCEPT !.i = @ + 1])]) EXCEPT !.co[c].hb = 1], <<>>>>}
            ELSE {<<Put(z, p, [r EXCEPT !.stk = Append(Append(Pop(@), [f EXCEPT !.i = @ + 1]), LINK(off))]), <<Ev(z, "in", [c |-> c, m |-> m, k |-> links[off]])>>>>}
       ELSE LET q == Pop(r.stk) IN
            IF q = <<>> THEN {<<Put(z, p, [r EXCEPT !.stk = <<>>, !.m = 0]), <<>>>>}      \* the chain is over
            ELSE {<<Put(z, p, [r EXCEPT !.stk = [q EXCEPT ![Len(q)].ph = 2, ![Len(q)].r = 1]]), <<>>>>}     \* Next returns
  ELSE LET acts == ActsAt(P, c, m, f.j)
           set(g) == [r EXCEPT !.stk = Append(Pop(@), g)]
           adv == [f EXCEPT !.ai = @ + 1, !.ph = 0, !.cc = 0] IN
       IF f.ai > Len(acts)
       THEN {<<Put(z, p, [r EXCEPT !.stk = Pop(@), !.off = @ + 1]), <<Ev(z, "out", [c |-> c, m |-> m, k |-> links[f.j], pan |-> FALSE, same |-> TRUE])>>>>}
       ELSE LET a == acts[f.ai]
                o == <<c, m, f.j, f.ai>>
                one(rr) == Ev(z, "a", [o |-> o, c |-> c, m |-> m, k |-> "", a |-> a.a, s |-> a.s, n |-> a.n, r |-> rr]) IN
         CASE a.a = "abort" -> {<<Put(z, p, [set(adv) EXCEPT !.off = ABORT]), <<one(1)>>>>}
           [] a.a = "sreq" -> {<<IF Bug(z, "scope") THEN [Put(z, p, set(adv)) EXCEPT !.co[c].rq = Append(@, <<a.s, a.n>>)]
                                 ELSE Put(z, p, [set(adv) EXCEPT !.rq = Append(@, <<a.s, a.n>>)]), <<one(1)>>>>}
           [] a.a = "greq" -> {<<Put(z, p, set(adv)), <<one(KeyVal(IF Bug(z, "scope") THEN z.co[c].rq ELSE r.rq, a.s))>>>>}
           [] a.a = "panic" ->
                LET fr == SelectSeq(r.stk, LAMBDA g : g.f = "l")
                    n == Len(fr) IN
                {<<Put(z, p, [r EXCEPT !.stk = <<>>, !.m = 0, !.q = IF Bug(z, "panicpipe") THEN <<>> ELSE @]),
                   <<one(1)>> \o [j \in 1..n |-> Ev(z, "out", [c |-> c, m |-> m, k |-> links[fr[n + 1 - j].j], pan |-> TRUE, same |-> TRUE])]>>}
           [] f.ph = 0 ->
                {<<Put(z, p, IF a.a = "next" THEN [set([f EXCEPT !.ph = 1]) EXCEPT !.stk = Append(@, [LOOP EXCEPT !.i = f.j + 1]), !.off = @ + 1]
                             ELSE set([f EXCEPT !.ph = 1])), <<OpB(z, a, o, c, m)>>>>}
           [] f.ph = 1 -> {<<Put(x[1], p, set(x[2])), x[3]>> : x \in Effect(P, z, f, a, o, c)}
           [] f.ph = 2 -> {<<Put(z, p, set(adv)), <<Ev(z, "e", [o |-> o, r |-> f.r])>>>>}

-----------------------------------------------------------------------------
(* the reader of a connection *)

UnitBytes(P, z, c, m) == P.need[c][m] <= z.co[c].pu /\ Unit(P, c, m).decl >= 0
TooBig(P, z, c, m) == SzF(P, c, m) /\ z.co[c].pu >= P.start[c][m] + 4
ReadRes(P, z, c, m) ==       \* what reading unit m gives: "msg", "end" or "wait"
  IF z.co[c].dead THEN "end"
  ELSE IF m <= Len(P.scn.conns[c].units) /\ TooBig(P, z, c, m) THEN "end"
  ELSE IF Bug(z, "eofloses") /\ z.co[c].fin THEN "end"
  ELSE IF m <= Len(P.scn.conns[c].units) /\ UnitBytes(P, z, c, m) THEN "msg"
  ELSE IF z.co[c].fin \/ z.co[c].shut THEN "end" ELSE "wait"

SpawnPipe(z, c, q) ==
  IF Bug(z, "pipe") THEN LET F == [p \in {<<"M", c, q[j]>> : j \in 1..Len(q)} |-> MRec(<<p[3]>>)] IN [z EXCEPT !.pr = @ @@ F]
  ELSE Spawn(z, <<"M", c, q[1]>>, MRec(q))

RSteps(P, z, p) ==
  LET r == z.pr[p]
      c == p[2]
      x == ReadRes(P, z, c, r.m)
      bad == r.m <= Len(P.scn.conns[c].units) /\ Unit(P, c, r.m).hk = "bad" IN
  CASE r.pc = "read" /\ r.q = <<>> ->
         IF x = "wait" THEN {}
         ELSE IF x = "end" \/ bad THEN {<<Put(z, p, [r EXCEPT !.pc = "cls"]), <<>>>>}
         ELSE IF P.grp[c][r.m][2] > r.m THEN {<<Put(z, p, [r EXCEPT !.q = <<r.m>>, !.m = @ + 1]), <<>>>>}
         ELSE {<<Spawn(Put(z, p, [r EXCEPT !.m = @ + 1]), <<"M", c, r.m>>, MRec(<<r.m>>)), <<>>>>}
    [] r.pc = "read" /\ r.q # <<>> ->      \* collecting a pipe
         IF x = "wait" THEN {}
         ELSE IF x = "end" THEN {<<SpawnPipe(Put(z, p, [r EXCEPT !.pc = "cls", !.q = <<>>]), c, r.q), <<>>>>}
         ELSE LET q == Append(r.q, r.m) IN
              IF P.grp[c][r.m][2] > r.m THEN {<<Put(z, p, [r EXCEPT !.q = q, !.m = @ + 1]), <<>>>>}
              ELSE {<<SpawnPipe(Put(z, p, [r EXCEPT !.q = <<>>, !.m = @ + 1]), c, q), <<>>>>}
    [] r.pc = "cls" -> {<<Put(z, p, [r EXCEPT !.pc = "close", !.cc = 1]), IF P.cfg.ocl THEN <<Ev(z, "cls", [c |-> c])>> ELSE <<>>>>}
    [] r.pc = "close" ->
         IF Bug(z, "noclose") THEN {<<Kill(z, p), <<>>>>}
         ELSE LET y == CloseStep(P, z, c, r.cc) IN
              {<<IF r.cc = 4 THEN Kill(y[1], p) ELSE Put(y[1], p, [r EXCEPT !.cc = @ + 1]), y[2]>>}

-----------------------------------------------------------------------------
(* the watchers *)

Ended(z, c) == z.co[c].end
AllClosed(z, c) == z.co[c].gen \in z.shutgen
Closing(P, z, p) ==     \* a watcher inside CloseConn
  LET r == z.pr[p]
      y == CloseStep(P, z, p[2], r.cc) IN
  {<<IF r.cc = 4 THEN Kill(y[1], p) ELSE Put(y[1], p, [r EXCEPT !.cc = @ + 1]), y[2]>>}
ToClose(z, p, evs) == {<<Put(z, p, [z.pr[p] EXCEPT !.cc = 1]), evs>>}

BSteps(P, z, p) ==
  LET c == p[2] IN
  IF z.pr[p].cc > 0 THEN Closing(P, z, p)
  ELSE (IF AllClosed(z, c) THEN ToClose(z, p, IF Bug(z, "cls2") /\ P.cfg.ocl THEN <<Ev(z, "cls", [c |-> c])>> ELSE <<>>) ELSE {})
       \cup (IF Ended(z, c) /\ ~Bug(z, "noexit") THEN {<<Kill(z, p), <<>>>>} ELSE {})

HSteps(P, z, p) ==
  LET c == p[2]
      r == z.pr[p]
      lim == IF Bug(z, "hb2") THEN 2 ELSE 3 IN
  IF r.cc > 0 THEN Closing(P, z, p)
  ELSE (IF z.co[c].hb = 1 THEN {<<[Put(z, p, [r EXCEPT !.n = IF Bug(z, "hbkeep") THEN @ ELSE 0, !.due = z.t + P.cfg.hb.iv]) EXCEPT !.co[c].hb = 0], <<>>>>} ELSE {})
       \cup (IF z.t >= r.due
             THEN IF r.n + 1 >= lim THEN ToClose(z, p, IF P.cfg.hb.loss THEN <<Ev(z, "loss", [c |-> c])>> ELSE <<>>)
                  ELSE {<<Put(z, p, [r EXCEPT !.n = @ + 1, !.due = z.t + P.cfg.hb.iv]), <<>>>>}
             ELSE {})
       \cup (IF AllClosed(z, c) THEN ToClose(z, p, <<>>) ELSE {})
       \cup (IF Ended(z, c) THEN {<<Kill(z, p), <<>>>>} ELSE {})

USteps(P, z, p) ==
  LET c == p[2]
      r == z.pr[p] IN
  IF r.cc > 0 THEN Closing(P, z, p)
  ELSE (IF z.co[c].au > 0 THEN {<<[Kill(z, p) EXCEPT !.co[c].au = 0], <<>>>>} ELSE {})
       \cup (IF z.co[c].au < 0 THEN {IF Bug(z, "nodeny") THEN <<[Kill(z, p) EXCEPT !.co[c].au = 0], <<>>>> ELSE <<[Put(z, p, [r EXCEPT !.cc = 1]) EXCEPT !.co[c].au = 0], <<>>>>} ELSE {})
       \cup (IF z.t >= r.due THEN ToClose(z, p, <<>>) ELSE {})
       \cup (IF AllClosed(z, c) THEN ToClose(z, p, <<>>) ELSE {})
       \cup (IF Ended(z, c) THEN {<<Kill(z, p), <<>>>>} ELSE {})

-----------------------------------------------------------------------------
(* the accept loop *)

Waiting(P, z, l) == SelectSeq(z.pend, LAMBDA c : P.scn.conns[c].l = l)
Watchers(P, z, c, gen) ==
  LET W == (IF P.cfg.sig THEN {<<"B", c>>} ELSE {}) \cup (IF P.cfg.hb.on THEN {<<"H", c>>} ELSE {}) \cup (IF P.cfg.auth.on THEN {<<"U", c>>} ELSE {}) IN
  [p \in W |-> [cc |-> 0, n |-> 0, due |-> z.t + (IF p[1] = "H" THEN P.cfg.hb.iv ELSE IF p[1] = "U" THEN P.cfg.auth.dl ELSE 0)]]

ASteps(P, z, p) ==
  LET r == z.pr[p]
      l == p[2]
      me == <<p[2], p[3]>>      \* the listening socket
      c == r.c IN
  CASE r.pc = "listen" -> {<<[Put(z, p, [r EXCEPT !.pc = "open", !.gen = IF Bug(z, "oldgen") THEN 1 ELSE z.gen]) EXCEPT !.open = @ \cup {me}], <<Ev(z, "listen", [l |-> l])>>>>}
    [] r.pc = "open" -> {<<[Put(z, p, [r EXCEPT !.pc = "accept"]) EXCEPT !.st = "run"], <<>>>>}
    [] r.pc = "accept" ->
         IF me \notin z.open \/ z.st = "stop"
         THEN {<<[Kill(z, p) EXCEPT !.open = @ \ {me}], (IF me \in z.open THEN <<Ev(z, "unlisten", [l |-> l])>> ELSE <<>>) \o <<Ev(z, "sret", [l |-> l])>>>>}
         ELSE IF Waiting(P, z, l) = <<>> THEN {}
         ELSE LET d == Head(Waiting(P, z, l)) IN
              {<<[Put(z, p, [r EXCEPT !.pc = "conn", !.c = d]) EXCEPT !.pend = SelectSeq(@, LAMBDA y : y # d), !.co[d].st = "acc", !.co[d].gen = r.gen],
                 <<Ev(z, "acc", [c |-> d])>>>>}
    [] r.pc = "conn" -> {<<Put(z, p, [r EXCEPT !.pc = "oc", !.i = 1, !.ph = 0, !.cc = 0]), IF P.cfg.occ THEN <<Ev(z, "conn", [c |-> c])>> ELSE <<>>>>}
    [] r.pc = "oc" ->
         LET acts == IF P.cfg.occ THEN P.scn.conns[c].oc ELSE <<>> IN
         IF r.i > Len(acts) THEN {<<Put(z, p, [r EXCEPT !.pc = "spawn"]), IF P.cfg.occ THEN <<Ev(z, "connret", [c |-> c])>> ELSE <<>>>>}
         ELSE LET a == acts[r.i]
                  o == <<c, 0, 0, r.i>> IN
              IF r.ph = 0 THEN {<<Put(z, p, [r EXCEPT !.ph = 1]), <<OpB(z, a, o, c, 0)>>>>}
              ELSE IF r.ph = 1 THEN {<<Put(x[1], p, x[2]), x[3]>> : x \in Effect(P, z, r, a, o, c)}
              ELSE {<<Put(z, p, [r EXCEPT !.i = @ + 1, !.ph = 0, !.cc = 0]), <<Ev(z, "e", [o |-> o, r |-> r.r])>>>>}
    [] r.pc = "spawn" ->
         LET z1 == [Put(z, p, [r EXCEPT !.pc = "accept", !.c = 0]) EXCEPT !.pr = @ @@ Watchers(P, z, c, r.gen)] IN
         {<<Spawn(z1, <<"R", c>>, [pc |-> "read", m |-> 1, q |-> <<>>, cc |-> 0]), <<>>>>}

-----------------------------------------------------------------------------
(* Stop, Start and Restart *)

SSteps(P, z, p) ==
  LET r == z.pr[p]
      done(zz, res) == {<<[Kill(zz, p) EXCEPT !.es = @ + 1], <<Ev(z, r.op \o "r", [r |-> res])>>>>} IN
  CASE r.pc = "check" -> IF r.op = "start" THEN IF z.st = "run" THEN done(z, 0) ELSE {<<Put(z, p, [r EXCEPT !.pc = "start"]), <<>>>>}
                         ELSE IF z.st = "stop" THEN done(z, 0) ELSE {<<Put(z, p, [r EXCEPT !.pc = "mark"]), <<>>>>}
    [] r.pc = "mark" -> {<<[Put(z, p, [r EXCEPT !.pc = "lis"]) EXCEPT !.st = "stop"], <<>>>>}
    [] r.pc = "lis" -> IF z.open = {} \/ (Bug(z, "onelis") /\ Cardinality(z.open) = 1) THEN {<<Put(z, p, [r EXCEPT !.pc = IF r.all THEN "all" ELSE "rf"]), <<>>>>}
                       ELSE LET l == CHOOSE x \in z.open : TRUE IN {<<[z EXCEPT !.open = @ \ {l}], <<Ev(z, "unlisten", [l |-> l[1]])>>>>}
    [] r.pc = "all" ->
         IF P.cfg.sig THEN {<<[Put(z, p, [r EXCEPT !.pc = "rf"]) EXCEPT !.shutgen = @ \cup {z.gen}, !.gen = @ + 1], <<>>>>}
         ELSE IF ~P.cfg.pool THEN {<<Put(z, p, [r EXCEPT !.pc = "rf"]), <<>>>>}
         ELSE LET D == {z.pool[n] : n \in DOMAIN z.pool} \ {0}
                  D1 == IF Bug(z, "drainone") /\ D # {} THEN {CHOOSE d \in D : TRUE} ELSE D IN
              {<<[Put(z, p, [r EXCEPT !.pc = "drain", !.d = D1, !.cc = 1]) EXCEPT !.pool = [n \in DOMAIN @ |-> 0]], <<>>>>}
    [] r.pc = "drain" ->
         IF r.d = {} THEN {<<Put(z, p, [r EXCEPT !.pc = "rf"]), <<>>>>}
         ELSE LET c == CHOOSE x \in r.d : TRUE
                  y == CloseStep(P, z, c, r.cc) IN
              {<<Put(y[1], p, IF r.cc = 4 THEN [r EXCEPT !.cc = 1, !.d = @ \ {c}] ELSE [r EXCEPT !.cc = @ + 1]), y[2]>>}
    [] r.pc = "rf" -> IF r.op = "stop" THEN done(z, 1)
                      ELSE IF r.n < r.fns THEN {<<Put(z, p, [r EXCEPT !.n = @ + 1]), <<Ev(z, "rf", [i |-> r.n + 1])>>>>}
                      ELSE {<<Put(z, p, [r EXCEPT !.pc = "start"]), <<>>>>}
    [] r.pc = "start" ->
         LET L == IF Bug(z, "lastonly") THEN {P.L} ELSE 1..P.L IN
         done([z EXCEPT !.runs = @ + 1, !.pr = @ @@ [q \in {<<"A", l, z.runs + 1>> : l \in L} |-> [pc |-> "listen", cc |-> 0, c |-> 0, i |-> 1, ph |-> 0, r |-> 0, gen |-> z.gen]]], 1)

-----------------------------------------------------------------------------
XSteps(P, z, p) ==
  LET c == p[2]
      q == z.co[c].out IN
  IF q = <<>> THEN {} ELSE {<<[z EXCEPT !.co[c].out = <<>>], <<Ev(z, "rx", [c |-> c, fr |-> q, part |-> 0, bad |-> FALSE])>>>>}

StepsOf(P, z, p) ==
  CASE p[1] = "A" -> ASteps(P, z, p)
    [] p[1] = "R" -> RSteps(P, z, p)
    [] p[1] = "B" -> BSteps(P, z, p)
    [] p[1] = "H" -> HSteps(P, z, p)
    [] p[1] = "U" -> USteps(P, z, p)
    [] p[1] = "M" -> MSteps(P, z, p)
    [] p[1] = "S" -> SSteps(P, z, p)
    [] p[1] = "X" -> XSteps(P, z, p)

Procs(P, z) == DOMAIN z.pr \cup {<<"X", c>> : c \in {c \in 1..P.N : z.co[c].out # <<>>}}

(* Steps that only touch the process' own frame and log nothing commute with every other step, so when there is one, *)
(* it is enough to look at that one (a partial-order reduction; such steps cannot go on for ever).                   *)
Own(P, z, p) ==
  LET r == z.pr[p] IN
  CASE p[1] = "M" -> r.stk = <<>> \/ (Top(r.stk).f = "n" /\ LET off == IF Bug(z, "localoff") THEN Top(r.stk).i ELSE r.off IN off > Len(FullChain(P, p[2], r.m)))
    [] p[1] = "A" -> r.pc = "spawn" \/ (r.pc = "conn" /\ ~P.cfg.occ) \/ (r.pc = "oc" /\ ~P.cfg.occ)
    [] p[1] = "R" -> r.pc = "cls" /\ ~P.cfg.ocl
    [] OTHER -> FALSE
Internal(P, z) ==
  LET O == {p \in DOMAIN z.pr : Own(P, z, p)} IN
  IF O # {} THEN StepsOf(P, z, CHOOSE p \in O : TRUE) ELSE UNION {StepsOf(P, z, p) : p \in Procs(P, z)}
HasOwn(P, z) == \E p \in DOMAIN z.pr : Own(P, z, p)

-----------------------------------------------------------------------------
(* the environment: the steps of the scenario, in order *)

QEv(P, z) ==
  Ev(z, "q", [live |-> FALSE, haspool |-> P.cfg.pool, pool |-> [i \in 1..Len(P.names) |-> z.pool[P.names[i]]],
              on |-> [c \in 1..P.N |-> IF z.co[c].st # "acc" THEN -1 ELSE IF z.co[c].off THEN 0 ELSE 1],
              lis |-> [l \in 1..P.L |-> IF \E x \in z.open : x[1] = l THEN 1 ELSE 0], g |-> Cardinality(DOMAIN z.pr)])

EnvSteps(P, z, quiet) ==
  IF z.es > Len(P.scn.steps) THEN {}
  ELSE LET st == P.scn.steps[z.es]
           c == st.c
           z1 == [z EXCEPT !.es = @ + 1] IN
  CASE st.op = "dial" ->
         LET ok == \E x \in z.open : x[1] = P.scn.conns[c].l IN
         {<<IF ok THEN [z1 EXCEPT !.pend = Append(@, c), !.co[c].st = "pend"] ELSE z1, <<Ev(z, "dial", [c |-> c, ok |-> ok])>>>>}
    [] st.op = "push" -> IF z.co[c].st = "no" THEN {<<z1, <<>>>>}
                         ELSE LET n == P.start[c][st.u] + Unit(P, c, st.u).size IN
                         {<<[z1 EXCEPT !.co[c].pu = n], <<Ev(z, "push", [c |-> c, n |-> n, ok |-> TRUE])>>>>}
    [] st.op = "fin" -> IF z.co[c].st = "no" THEN {<<z1, <<>>>>} ELSE {<<[z1 EXCEPT !.co[c].fin = TRUE], <<Ev(z, "fin", [c |-> c])>>>>}
    [] st.op = "shut" -> IF z.co[c].st = "no" THEN {<<z1, <<>>>>} ELSE {<<[z1 EXCEPT !.co[c].shut = TRUE, !.co[c].out = <<>>], <<Ev(z, "shut", [c |-> c])>>>>}
    [] st.op = "release" -> {<<[z1 EXCEPT !.rel = @ \cup {st.n}], <<>>>>}
    [] st.op = "settle" -> IF quiet THEN {<<z1, <<QEv(P, z)>>>>} ELSE {}
    [] st.op = "adv" ->       \* time passes only while nothing else can happen, up to the next timer
         IF ~quiet THEN {}
         ELSE LET D == {z.pr[p].due : p \in {p \in DOMAIN z.pr : p[1] \in {"H", "U"} /\ z.pr[p].cc = 0 /\ z.pr[p].due > z.t}} IN
              IF \E d \in D : d < st.n THEN {<<[z EXCEPT !.t = MinSet(D, 0)], <<>>>>}
              ELSE {<<[z1 EXCEPT !.t = st.n], <<>>>>}
    [] st.op \in {"stop", "start", "restart"} ->
         IF <<"S">> \in DOMAIN z.pr THEN {}
         ELSE {<<Spawn(z, <<"S">>, [op |-> st.op, all |-> st.s = "all", pc |-> "check", d |-> {}, cc |-> 0, n |-> 0, fns |-> st.n]),
                 <<Ev(z, st.op, [all |-> st.s = "all", n |-> st.n])>>>>}

Feed(P, mon, evs) ==
  LET Step(m, e) == [s |-> Apply(P, m.s, e), bad |-> m.bad \cup GuardsAt(P, m.s, e)] IN
  CASE Len(evs) = 0 -> mon
    [] Len(evs) = 1 -> Step(mon, evs[1])
    [] Len(evs) = 2 -> Step(Step(mon, evs[1]), evs[2])
    [] Len(evs) = 3 -> Step(Step(Step(mon, evs[1]), evs[2]), evs[3])
    [] Len(evs) = 4 -> Step(Step(Step(Step(mon, evs[1]), evs[2]), evs[3]), evs[4])
=============================================================================
