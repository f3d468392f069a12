-------------------------------- MODULE Tcpx --------------------------------
(* The observable behaviour of a tcpx server: its state, and for every event what must hold for it to be        *)
(* allowed (Guards) and how it changes the state (Apply).  Both are pure operators over                         *)
(*    P  the scenario (configuration, registrations, what each client sends and what each handler does),        *)
(*    s  the state,   e  an event,                                                                               *)
(* so that the same definitions drive the model (ServerMC: all events whose guards hold happen) and the           *)
(* conformance check (TcpxTrace: the events of the real code happen; every failed guard is a violation).        *)
(* A guard is a triple <<properties it decides, condition, reason>>.                                            *)
EXTENDS Registration, TLC

SL   == 5000          \* timer slack, microseconds
NONE == 2000000000    \* "no deadline"
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinSet(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : x <= y
Has(r, f) == f \in DOMAIN r

-----------------------------------------------------------------------------
(* Static facts of a scenario *)

RECURSIVE SumSize(_, _)
SumSize(us, k) == IF k = 0 THEN 0 ELSE SumSize(us, k - 1) + us[k].size

RECURSIVE Groups(_, _, _, _)
(* groups of piped messages: g[m] = <<first, last>>, last may lie beyond what the client sends *)
Groups(us, m, cur, acc) ==
  IF m > Len(us) THEN acc
  ELSE LET g == IF m <= cur[2] THEN cur
                ELSE IF us[m].pipe > 1 THEN <<m, m + us[m].pipe - 1>> ELSE <<m, m>>
       IN Groups(us, m + 1, g, Append(acc, g))

SizeFatal(cfg, u) == u.decl < 0 \/ (cfg.max > 0 /\ u.decl > cfg.max)

ActSet(scn) ==
  UNION {UNION {{scn.conns[c].units[m]["do"][i] : i \in 1..Len(scn.conns[c].units[m]["do"])} : m \in 1..Len(scn.conns[c].units)} : c \in 1..Len(scn.conns)}
  \cup UNION {{scn.conns[c].raw[i] : i \in 1..Len(scn.conns[c].raw)} : c \in 1..Len(scn.conns)}
  \cup UNION {{scn.conns[c].oc[i] : i \in 1..Len(scn.conns[c].oc)} : c \in 1..Len(scn.conns)}

Ctx(scn) ==
  LET cfg == scn.cfg
      A == {a.a : a \in ActSet(scn)}
      S == {scn.steps[i].op : i \in 1..Len(scn.steps)}
      U == UNION {{scn.conns[c].units[m] : m \in 1..Len(scn.conns[c].units)} : c \in 1..Len(scn.conns)}
  IN (IF \E u \in U : u.mal \notin {"", "tail"} THEN {"C03"} ELSE {})
     \cup (IF cfg.max > 0 THEN {"C04"} ELSE {})
     \cup (IF A \cap {"abort", "next"} # {} THEN {"C07"} ELSE {})
     \cup (IF \E u \in U : u.pipe > 0 THEN {"C09"} ELSE {})
     \cup (IF cfg.hb.on THEN {"C11"} ELSE {})
     \cup (IF cfg.auth.on THEN {"C12"} ELSE {})
     \cup (IF "stop" \in S \/ "restart" \in S THEN {"C16"} ELSE {})
     \cup (IF "start" \in S \/ "restart" \in S THEN {"C17"} ELSE {})
     \cup (IF cfg.dl > 0 \/ cfg.rdl > 0 \/ cfg.wdl > 0 \/ A \cap {"dl", "rdl", "wdl"} # {} THEN {"C19"} ELSE {})
     \cup (IF \E l \in 1..Len(cfg.lis) : cfg.lis[l].mode = "udp" THEN {"C20"} ELSE {})
     \cup (IF \E l \in 1..Len(cfg.lis) : cfg.lis[l].mode = "raw" THEN {"C21"} ELSE {})
     \cup (IF "panic" \in A THEN {"C22"} ELSE {})
     \cup (IF "again" \in S THEN {"C26"} ELSE {})
     \cup (IF "block" \in A \/ "sleep" \in A \/ \E c \in 1..Len(scn.conns) : scn.conns[c].win > 0 THEN {"C25"} ELSE {})

Static(scn) ==
  LET cfg == scn.cfg
      N == Len(scn.conns)
      reg == TLCEval(RegOf(cfg))
      mode == TLCEval([c \in 1..N |-> cfg.lis[scn.conns[c].l].mode])
      us(c) == scn.conns[c].units
      grp == TLCEval([c \in 1..N |-> Groups(us(c), 1, <<0, 0>>, <<>>)])
      start == TLCEval([c \in 1..N |-> TLCEval([m \in 1..Len(us(c)) |-> SumSize(us(c), m - 1)])])
      full(c, m) == IF mode[c] = "raw" THEN Everything(reg, "raw") ELSE ChainOf(reg, cfg, us(c)[m])
      vis(q) == SelectSeq(q, LAMBDA k : k # "~hb")
      fat(c) == {m \in 1..Len(us(c)) : SizeFatal(cfg, us(c)[m])
                                        \/ (us(c)[m].hk = "bad" /\ grp[c][m][1] = m)}
      unk(c) == {m \in 1..Len(us(c)) : ~SizeFatal(cfg, us(c)[m])
                                        /\ (us(c)[m].hk = "unk" \/ (us(c)[m].hk = "bad" /\ grp[c][m][1] # m))}
      k1 == TLCEval([c \in 1..N |-> MinSet(unk(c), 1000)])
      f0 == TLCEval([c \in 1..N |-> MinSet(fat(c), 1000)])
  IN [cfg |-> cfg, scn |-> scn, N |-> N, reg |-> reg, mode |-> mode, grp |-> grp, start |-> start,
      need |-> TLCEval([c \in 1..N |-> TLCEval([m \in 1..Len(us(c)) |-> start[c][m] + 4 + us(c)[m].decl])]),
      nm   |-> TLCEval([c \in 1..N |-> IF mode[c] = "raw" THEN 1 ELSE Len(us(c))]),
      chain |-> TLCEval([c \in 1..N |-> IF mode[c] = "raw" THEN <<Everything(reg, "raw")>>
                                ELSE TLCEval([m \in 1..Len(us(c)) |-> vis(full(c, m))])]),
      inv  |-> TLCEval([c \in 1..N |-> IF mode[c] = "raw" THEN <<FALSE>>
                               ELSE TLCEval([m \in 1..Len(us(c)) |-> full(c, m) # vis(full(c, m))])]),
      k1 |-> k1, f1 |-> TLCEval([c \in 1..N |-> IF f0[c] < k1[c] THEN f0[c] ELSE 1000]),
      buf |-> TLCEval([c \in 1..N |-> IF cfg.lis[scn.conns[c].l].buf = 0 THEN 4096 ELSE cfg.lis[scn.conns[c].l].buf]),
      ctx |-> TLCEval(Ctx(scn)), names |-> scn.names, L |-> Len(cfg.lis)]

Unit(P, c, m) == P.scn.conns[c].units[m]
SzF(P, c, m)  == SizeFatal(P.cfg, Unit(P, c, m))

-----------------------------------------------------------------------------
(* State *)

ConnInit(P, c) ==
  [up |-> FALSE, acc |-> 0, ta |-> 0, tc |-> 0, ob |-> 0, orr |-> 0, pu |-> 0, fin |-> FALSE, shut |-> FALSE,
   rst |-> FALSE, sc |-> FALSE, cl |-> 0, cl0 |-> -1, ls |-> 0, over |-> FALSE, frb |-> {}, exm |-> {}, oldm |-> {}, exc |-> FALSE,
   closing |-> FALSE, closed |-> FALSE, hblo |-> 0, hbhi |-> 0, hbp |-> 0, pb |-> 0, pe |-> 0, pbt |-> 0, pet |-> 0,
   db |-> 0, de |-> 0, rdlo |-> NONE, rdhi |-> NONE, rdx |-> FALSE, wdlo |-> NONE, wdhi |-> NONE, wdx |-> -1, wf |-> 0, dle |-> 0, mayst |-> FALSE, must |-> FALSE,
   win |-> P.scn.conns[c].win, rn |-> 0, dv |-> {}, pf |-> FALSE, part |-> 0, hbcause |-> FALSE, npo |-> 0]

ChInit == [pos |-> 0, stk |-> <<>>, ab |-> FALSE, pn |-> FALSE, rq |-> <<>>]

PoolInit(P) == [p |-> [i \in 1..Len(P.names) |-> 0], dead |-> {}, lin |-> {}]

StInit(P) ==
  [i |-> 0, t |-> 0, cn |-> [c \in 1..P.N |-> ConnInit(P, c)],
   ch |-> [c \in 1..P.N |-> [m \in 1..P.nm[c] |-> ChInit]],
   ops |-> <<>>, tg |-> <<>>, cw |-> <<>>, ps |-> {PoolInit(P)}, pbroken |-> FALSE,
   os |-> {[p |-> PoolInit(P).p, lin |-> {}]},
   sv |-> "init", ever |-> "no", open |-> {}, inprog |-> "", rfn |-> 0, rfi |-> 0, loose |-> FALSE, stopping |-> FALSE,
   sret |-> {}, g0 |-> -1, nq |-> 0, stpool |-> {}, stall |-> FALSE]

-----------------------------------------------------------------------------
(* Chains *)

Chain(P, c, m) == P.chain[c][m]
Started(s, c, m) == s.ch[c][m].pos > 0
Done(P, s, c, m) == LET x == s.ch[c][m] IN
   \/ Len(Chain(P, c, m)) = 0
   \/ x.pos > 0 /\ x.stk = <<>> /\ (x.pos = Len(Chain(P, c, m)) \/ x.ab \/ x.pn)
Running(P, s, c, m) == Started(s, c, m) /\ ~Done(P, s, c, m)

-----------------------------------------------------------------------------
(* The client's stream *)

Complete(P, s, c, m) ==
  IF P.mode[c] = "udp" THEN m \in s.cn[c].dv
  ELSE Unit(P, c, m).decl >= 0 /\ P.need[c][m] <= s.cn[c].pu

FatalAt(P, c) == IF SzF(P, c, P.f1[c]) THEN P.start[c][P.f1[c]] + 4 ELSE P.need[c][P.f1[c]]
FatalNow(P, s, c) == P.mode[c] = "pack" /\ P.f1[c] < 1000 /\ s.cn[c].pu >= FatalAt(P, c)
MayFatal(P, s, c) ==
  FatalNow(P, s, c) \/ (P.mode[c] = "pack" /\ P.k1[c] < 1000 /\ s.cn[c].pu > P.start[c][P.k1[c]])

StreamOver(P, s, c) == s.cn[c].fin \/ s.cn[c].shut \/ FatalNow(P, s, c)

UdpOK(P, c, m) == LET u == Unit(P, c, m) IN
   u.hk = "ok" /\ u.mal \in {"", "tail", "stuff"} /\ u.size <= P.buf[c]
UdpNever(P, c, m) == LET u == Unit(P, c, m) IN u.mal \in {"short", "neg", "trunc"} \/ u.size > P.buf[c]

Prev(P, s, c, m) == \A k \in P.grp[c][m][1]..(m - 1) : Done(P, s, c, k) \/ (k >= P.k1[c] /\ ~Started(s, c, k))

(* must have been dispatched once everything is quiet *)
Obliged(P, s, c, m) ==
  /\ Len(Chain(P, c, m)) > 0
  /\ Complete(P, s, c, m)
  /\ ~s.cn[c].exc
  /\ m \notin s.cn[c].frb \cup s.cn[c].exm
  /\ IF P.mode[c] = "udp" THEN UdpOK(P, c, m)
     ELSE /\ s.cn[c].acc > 0
          /\ m < P.f1[c] /\ m < P.k1[c]
          /\ Prev(P, s, c, m)
          /\ LET last == P.grp[c][m][2] IN
             \/ last <= P.nm[c] /\ \A k \in m..last : k < P.f1[c] /\ Complete(P, s, c, k)
             \/ StreamOver(P, s, c)

-----------------------------------------------------------------------------
(* Why a connection may, and must, have ended *)

HbOn(P, s, c) == P.cfg.hb.on /\ P.mode[c] # "udp" /\ s.cn[c].acc > 0
HbMay(P, s, c, t)  == HbOn(P, s, c) /\ t >= s.cn[c].hblo + 3 * P.cfg.hb.iv - SL
HbMust(P, s, c, t) == HbOn(P, s, c) /\ t > s.cn[c].hbhi + 3 * P.cfg.hb.iv + SL
                      /\ ~\E o \in DOMAIN s.ops : s.ops[o].a = "beat" /\ s.ops[o].c = c

AuOn(P, s, c) == P.cfg.auth.on /\ P.mode[c] = "pack" /\ s.cn[c].acc > 0
AuMay(P, s, c, t) == LET k == s.cn[c] IN
  AuOn(P, s, c) /\ \/ k.db > 0 /\ (k.pe = 0 \/ k.pe > k.db)
                   \/ t >= k.ta + P.cfg.auth.dl - SL /\ ~(k.pe > 0 /\ k.pet < k.ta + P.cfg.auth.dl - SL)
AuMust(P, s, c, t) == LET k == s.cn[c] IN
  AuOn(P, s, c) /\ \/ k.de > 0 /\ (k.pb = 0 \/ k.pb > k.de)
                   \/ t > k.tc + P.cfg.auth.dl + SL /\ ~(k.pb > 0 /\ k.pbt <= k.tc + P.cfg.auth.dl + SL)

RdMay(P, s, c, t)  == P.mode[c] = "pack" /\ s.cn[c].acc > 0 /\ (s.cn[c].rdx \/ t >= s.cn[c].rdlo - SL)   \* rdx: it had expired when another was set
WdMay(s, c, t0, t) == t >= s.cn[c].wdlo - SL \/ t0 <= s.cn[c].wdx      \* a write begun at t0 may fail at t
RdMust(P, s, c, t) == P.mode[c] = "pack" /\ s.cn[c].acc > 0 /\ t > s.cn[c].rdhi + SL

(* a write deadline can cut a reply in half; nothing that followed could be understood, so the connection is closed *)
Wk == {"reply", "tocon", "sendto"}
WfMay(s, c, t) == s.cn[c].wf > 0 \/ \E o \in DOMAIN s.ops : s.ops[o].a \in Wk /\ (s.ops[o].a = "sendto" \/ s.ops[o].dst = c) /\ WdMay(s, c, s.ops[o].t, t)

ServerCause(P, s, c, t) ==    \* endings that may cut off what the client has sent
  s.cn[c].closing \/ s.cn[c].mayst \/ WfMay(s, c, t) \/ HbMay(P, s, c, t) \/ AuMay(P, s, c, t) \/ RdMay(P, s, c, t) \/ s.cn[c].rst

MayEnd(P, s, c, t) ==
  \/ s.cn[c].sc      \* it has ended
  \/ IF P.mode[c] = "raw"
     THEN s.cn[c].closing \/ s.cn[c].mayst \/ WfMay(s, c, t) \/ HbMay(P, s, c, t) \/ Done(P, s, c, 1)
     ELSE ServerCause(P, s, c, t) \/ s.cn[c].fin \/ s.cn[c].shut \/ MayFatal(P, s, c)

MustEndTags(P, s, c, t) ==
  LET k == s.cn[c] IN
  (IF k.closed THEN {"C10"} ELSE {})
  \cup (IF k.must THEN {"C16", "C10"} ELSE {})
  \cup (IF HbMust(P, s, c, t) THEN {"C11", "C10"} ELSE {})
  \cup (IF P.mode[c] = "raw" THEN (IF Done(P, s, c, 1) THEN {"C21", "C10"} ELSE {})
        ELSE (IF AuMust(P, s, c, t) THEN {"C12", "C10"} ELSE {})
             \cup (IF RdMust(P, s, c, t) THEN {"C19", "C10"} ELSE {})
             \cup (IF FatalNow(P, s, c) THEN {"C03", "C10"} \cup (IF SzF(P, c, P.f1[c]) /\ Unit(P, c, P.f1[c]).decl >= 0 THEN {"C04"} ELSE {})
                                             \cup (IF P.grp[c][P.f1[c]][1] # P.f1[c] THEN {"C09"} ELSE {})
                   ELSE {})
             \cup (IF k.fin \/ k.shut \/ k.rst THEN {"C10", "C02"} \cup (P.ctx \cap {"C09", "C25", "C22", "C11"}) ELSE {}))

Gone(s, c) == s.cn[c].shut \/ s.cn[c].rst     \* the client no longer reads

-----------------------------------------------------------------------------
(* The pool: the set of all states it can be in, given what has begun and returned so far *)

PoolOps == {"online", "offline", "lookup", "sendto"}
NameIx(P, n) == IF \E i \in 1..Len(P.names) : P.names[i] = n THEN CHOOSE i \in 1..Len(P.names) : P.names[i] = n ELSE 0
Without(p, c) == [i \in DOMAIN p |-> IF p[i] = c THEN 0 ELSE p[i]]

Lin(P, x, o, op) ==
  LET n == NameIx(P, op.s) IN
  CASE op.a = "online" ->
         IF n = 0 \/ op.c \in x.dead THEN [x EXCEPT !.lin = @ \cup {<<o, 0>>}]
         ELSE [x EXCEPT !.p = [Without(@, op.c) EXCEPT ![n] = op.c], !.lin = @ \cup {<<o, 1>>}]
    [] op.a = "offline" -> [x EXCEPT !.p = Without(@, op.c), !.lin = @ \cup {<<o, IF ~Has(op, "rr") /\ \E i \in DOMAIN x.p : x.p[i] = op.c THEN 1 ELSE 0>>}]
    [] op.a \in {"lookup", "sendto"} -> [x EXCEPT !.lin = @ \cup {<<o, IF n = 0 THEN 0 ELSE x.p[n]>>}]

(* A recorded trace tells beforehand what an operation will return (rr); orders that give it another result need not be followed. *)
Fits(P, x, op) ==
  Has(op, "rr") =>
    LET n == NameIx(P, op.s) IN
    CASE op.a = "online"  -> op.rr = IF n = 0 \/ op.c \in x.dead THEN 0 ELSE 1
      [] op.a = "offline" -> op.rr = 1 \/ ~\E i \in DOMAIN x.p : x.p[i] = op.c
      [] op.a = "lookup"  -> op.rr = IF n = 0 THEN 0 ELSE x.p[n]
      [] op.a = "sendto"  -> op.rr = 1 => n # 0 /\ x.p[n] # 0
(* ... and one that fits and changes nothing may as well happen at once *)
Idle(P, x, op) ==
  /\ Has(op, "rr")
  /\ LET n == NameIx(P, op.s) IN
     CASE op.a = "online" -> op.rr = 0 /\ op.c \in x.dead
       [] op.a = "lookup" -> op.rr = IF n = 0 THEN 0 ELSE x.p[n]
       [] op.a = "sendto" -> op.rr = 0 /\ (n = 0 \/ x.p[n] = 0)
       [] OTHER -> FALSE

PoolPend(s) == {o \in DOMAIN s.ops : s.ops[o].a \in PoolOps}

Holds(x, c) == \E i \in DOMAIN x.p : x.p[i] = c
(* a connection ends and is removed; when does not matter unless it is in the pool or about to enter it *)
PoolNorm(P, s, x) ==
  LET q == {o \in PoolPend(s) : ~(\E r \in x.lin : r[1] = o) /\ Idle(P, x, s.ops[o])} IN
  IF q = {} THEN x ELSE [x EXCEPT !.lin = @ \cup {<<o, IF s.ops[o].a = "lookup" THEN s.ops[o].rr ELSE 0>> : o \in q}]
PoolSucc(P, s, x, t) ==
  LET pend == {o \in PoolPend(s) : ~\E r \in x.lin : r[1] = o}
      near == {x.p[i] : i \in DOMAIN x.p} \cup {s.ops[o].c : o \in {o \in pend : s.ops[o].a = "online"}} IN
  {Lin(P, x, o, s.ops[o]) : o \in {o \in pend : Fits(P, x, s.ops[o])}}
  \cup {[x EXCEPT !.dead = @ \cup {c}] : c \in {c \in near \ ({0} \cup x.dead) : P.mode[c] # "udp" /\ s.cn[c].acc > 0 /\ MayEnd(P, s, c, t)}}
  \cup {[x EXCEPT !.p = Without(@, c)] : c \in {c \in x.dead : Holds(x, c)}}
  \cup {[x EXCEPT !.p = Without(@, c)] : c \in {c \in near \ {0} : s.cn[c].mayst /\ ~P.cfg.sig}}

RECURSIVE PoolGrow(_, _, _, _, _)
PoolGrow(P, s, X, new, t) ==      \* new: the states of X whose successors are not yet in X
  LET Y == TLCEval({PoolNorm(P, s, y) : y \in UNION {PoolSucc(P, s, x, t) : x \in new}} \ X) IN
  IF Y = {} THEN X ELSE PoolGrow(P, s, TLCEval(X \cup Y), Y, t)
PoolClose(P, s, X, t) == LET Z == TLCEval({PoolNorm(P, s, x) : x \in X}) IN PoolGrow(P, s, Z, Z, t)

Res(x, o) == CHOOSE r \in {y[2] : y \in {y \in x.lin : y[1] = o}} : TRUE
LinDone(x, o) == \E r \in x.lin : r[1] = o
ForgetOp(x, o) == [x EXCEPT !.lin = {r \in @ : r[1] # o}]

(* states compatible with operation o having returned r *)
PoolRet(P, s, o, r, t) ==
  LET op == s.ops[o]
      X == PoolClose(P, s, s.ps, t) IN
  {x \in X : LinDone(x, o) /\
     CASE op.a = "online"  -> Res(x, o) = r
       [] op.a = "offline" -> Res(x, o) = 1 => r = 1      \* whoever holds a name can give it up
       [] op.a = "lookup"  -> Res(x, o) = r
       [] op.a = "sendto"  -> IF r = 1 THEN Res(x, o) # 0
                              ELSE \/ Res(x, o) = 0
                                   \/ MayEnd(P, s, Res(x, o), t) \/ Gone(s, Res(x, o))
                                   \/ WdMay(s, Res(x, o), op.t, t)}

(* A pool the application keeps itself (NewClientPool): a map from names to what was last put there *)
OwnOps == {"mon", "moff", "mget"}
OwnLin(P, x, o, op) ==
  LET n == NameIx(P, op.s) IN
  CASE op.a = "mon"  -> [x EXCEPT !.p[n] = op.c, !.lin = @ \cup {<<o, 1>>}]
    [] op.a = "moff" -> [x EXCEPT !.p[n] = 0, !.lin = @ \cup {<<o, 1>>}]
    [] op.a = "mget" -> [x EXCEPT !.lin = @ \cup {<<o, x.p[n]>>}]
OwnFits(P, x, op) == op.a = "mget" /\ Has(op, "rr") => x.p[NameIx(P, op.s)] = op.rr
RECURSIVE OwnGrow(_, _, _, _)
OwnGrow(P, s, X, new) ==
  LET Y == TLCEval(UNION {{OwnLin(P, x, o, s.ops[o]) : o \in {o \in DOMAIN s.ops : s.ops[o].a \in OwnOps /\ ~LinDone(x, o) /\ OwnFits(P, x, s.ops[o])}} : x \in new} \ X) IN
  IF Y = {} THEN X ELSE OwnGrow(P, s, TLCEval(X \cup Y), Y)
OwnRet(P, s, o, r) == {x \in OwnGrow(P, s, s.os, s.os) : LinDone(x, o) /\ (s.ops[o].a = "mget" => Res(x, o) = r)}

-----------------------------------------------------------------------------
(* Connection scope: a register per key; a read returns a value some not yet overwritten write has put there.  *)

ReadOK(s, sc, key, rb, v) ==
  LET W == {i \in 1..Len(s.cw) : s.cw[i].sc = sc /\ s.cw[i].key = key} IN
  IF v = -1 THEN ~\E i \in W : s.cw[i].e > 0 /\ s.cw[i].e < rb
  ELSE \E i \in W : s.cw[i].v = v /\
         (s.cw[i].e > 0 => ~\E j \in W : s.cw[j].b > s.cw[i].e /\ s.cw[j].e > 0 /\ s.cw[j].e < rb)

RECURSIVE KeyVal(_, _)
KeyVal(q, key) == IF q = <<>> THEN -1 ELSE IF q[Len(q)][1] = key THEN q[Len(q)][2] ELSE KeyVal(SubSeq(q, 1, Len(q) - 1), key)

-----------------------------------------------------------------------------
(* Guards *)

G(tags, cond, why) == IF cond THEN {} ELSE {<<tags, why>>}
GG(pre, set) == IF pre THEN set ELSE {}

Serving == {"C02", "C03", "C05", "C10", "C16", "C17", "C20", "C21", "C22", "C25"}
LostTags(P) == {"C02", "C05", "C06"} \cup (P.ctx \cap {"C03", "C04", "C07", "C09", "C11", "C12", "C16", "C17", "C19", "C20", "C21", "C22", "C25"})
CloseTags(P) == {"C02", "C10"} \cup (P.ctx \cap {"C03", "C04", "C09", "C11", "C12", "C16", "C17", "C19", "C21", "C22", "C25"})

GIn(P, s, e) ==
  LET c == e.c  m == e.m IN
  G({"C02", "C05", "C20", "C21"}, c >= 1 /\ c <= P.N, "a link ran for no client's connection")
  \cup GG(c >= 1, G({"C01", "C02", "C03", "C05", "C08", "C09", "C20", "C21"}, m >= 1, "a link saw bytes that are no message of its client")
  \cup GG(m >= 1,
    LET x == s.ch[c][m]
        q == Chain(P, c, m)
        k == s.cn[c]
        pk == P.mode[c] = "pack" IN
    G({"C02", "C03", "C20"}, P.mode[c] = "raw" \/ Complete(P, s, c, m), "a message was dispatched before it had arrived completely")
    \cup GG(pk, G({"C03", "C09"} \cup (IF SzF(P, c, m) THEN {"C04"} ELSE {}), m # P.f1[c], "an invalid or oversized message was dispatched")
                \cup G({"C03", "C04", "C09"}, m <= P.f1[c], "a message after an invalid one was dispatched"))
    \cup GG(P.mode[c] = "udp", G({"C20", "C03"}, ~UdpNever(P, c, m), "an incomplete datagram was dispatched"))
    \cup G({"C05"} \cup (IF q # <<>> THEN {"C06"} ELSE {}), q # <<>>, "a message without a handler ran something")
    \cup GG(q # <<>>,
         G({"C05", "C06", "C07", "C02", "C09", "C22"} \cup (IF P.mode[c] = "raw" THEN {"C21"} ELSE {}) \cup (IF P.mode[c] = "udp" THEN {"C20"} ELSE {}),
             x.pos < Len(q), "a link ran again after its chain was complete (message handled more than once)")
         \cup GG(x.pos < Len(q), G({"C06", "C05"} \cup (IF x.pos > 0 THEN {"C07"} ELSE {}) \cup (IF P.mode[c] = "raw" THEN {"C21"} ELSE {}) \cup (IF P.grp[c] # <<>> /\ P.grp[c][m][1] # P.grp[c][m][2] THEN {"C09"} ELSE {})
                                           \cup (IF P.mode[c] = "udp" THEN {"C20"} ELSE {}),
                                   q[x.pos + 1] = e.k, "the wrong link ran"))
         \cup G({"C07"}, ~x.ab, "a link ran after Abort")
         \cup G({"C22", "C07"}, ~x.pn, "a link ran after a panic of the same request")
         \cup G({"C07"}, x.stk = <<>> \/ x.stk[Len(x.stk)].nx, "a link ran while another one, not inside Next, was running"))
    \cup GG(pk /\ x.pos = 0, G({"C09"}, Prev(P, s, c, m), "a piped message started before the previous one was finished"))
    \cup GG(P.mode[c] # "udp",
            G({"C10", "C21"}, k.acc > 0 /\ (P.cfg.occ => k.orr = 1), "a link ran before OnConnect had returned")
            \cup G({"C10"} \cup (P.ctx \cap {"C11", "C12", "C16", "C19"}), x.pos > 0 \/ m \notin k.frb, "a message was dispatched on an ended connection")
            \cup GG(pk /\ k.cl0 >= 0, G({"C10"}, P.need[c][m] <= k.cl0 \/ x.pos > 0, "a message that arrived after OnClose was dispatched")))
    \cup GG(P.mode[c] = "udp", G({"C16", "C20"}, x.pos > 0 \/ m \notin k.frb, "a datagram was dispatched after Stop"))))

GOut(P, s, e) ==
  GG(e.c >= 1 /\ e.m >= 1,
    LET x == s.ch[e.c][e.m] IN
    G({"C07"}, x.stk # <<>> /\ x.stk[Len(x.stk)].k = e.k, "a link returned out of order")
    \cup G({"C02", "C05", "C08", "C20"}, e.same, "the message's bytes changed while it was being handled")
    \cup G({"ALL"}, e.pan => x.pn, "an operation of the library panicked inside a handler"))

OpTags(a) ==
  CASE a \in {"online", "offline", "lookup", "mon", "moff", "mget"} -> {"C13"}
    [] a = "sendto" -> {"C15", "C13"}
    [] a \in {"beat", "pass", "deny"} -> {"C18", "C11", "C12"}
    [] a = "close" -> {"C10", "C18"}
    [] a \in {"scon", "gcon"} -> {"C08"}
    [] a \in {"reply", "tocon"} -> {"C14", "C25"}
    [] a \in {"rread", "rwrite", "rwritew"} -> {"C21"}
    [] OTHER -> {"C18", "C25"}

ReplyTags(P, c) == {"C14"} \cup (IF P.mode[c] = "udp" THEN {"C20"} ELSE IF P.mode[c] = "raw" THEN {"C21"} ELSE {})
                           \cup (P.ctx \cap {"C19"})

GReplyRet(P, s, op, r, t) ==
  LET c == op.dst
      gone == IF P.mode[c] = "udp" THEN s.sv = "down" \/ s.stopping \/ op.m \in s.cn[c].oldm
              ELSE MayEnd(P, s, c, t) \/ Gone(s, c) \/ (P.mode[c] = "raw" /\ (s.cn[c].rst \/ s.cn[c].shut)) IN
  IF r = 1
  THEN G({"C14"} \cup (IF P.mode[c] = "raw" THEN {"C21"} ELSE {}), ~op.over, "replying on an ended connection succeeded")
       \cup G({"C19"}, P.mode[c] = "udp" \/ op.t <= s.cn[c].wdhi + SL, "a reply succeeded after the write deadline")
       \cup G({"C14"}, op.s # "BAD", "a body that cannot be marshalled was sent")
  ELSE G(ReplyTags(P, c) \cup (P.ctx \cap {"C16", "C17", "C22", "C25"}),
         gone \/ op.s = "BAD" \/ WdMay(s, c, op.t, t),
         "a reply failed although the connection is alive")

GRet(P, s, e) ==
  IF e.o \notin DOMAIN s.ops THEN {}
  ELSE LET op == s.ops[e.o] IN
   CASE op.a = "next" ->
          LET x == s.ch[op.c][op.m] IN
          G({"C07"} \cup (IF P.mode[op.c] = "raw" THEN {"C21"} ELSE {}), x.pos = Len(Chain(P, op.c, op.m)) \/ x.ab, "Next returned before the remaining chain had run")
     [] op.a \in {"reply", "rwrite", "rwritew", "tocon"} -> GReplyRet(P, s, op, e.r, s.t)
     [] op.a \in PoolOps /\ P.cfg.pool /\ ~s.pbroken ->
          G((IF op.a = "sendto" THEN {"C15", "C13"} ELSE {"C13"}) \cup (P.ctx \cap {"C16"}),
            PoolRet(P, s, e.o, e.r, s.t) # {}, "no order of the pool operations explains the result of " \o op.a)
     [] op.a \in OwnOps -> G({"C13"}, s.os = {} \/ OwnRet(P, s, e.o, e.r) # {}, "no order of the operations explains what is in the application's own pool")
     [] op.a \in PoolOps /\ ~P.cfg.pool -> G({"C13", "C15"}, e.r = 0, "a pool operation succeeded without a pool")
     [] op.a = "gcon" -> G({"C08"}, IF P.mode[op.c] = "udp" THEN e.r = KeyVal(s.ch[op.c][op.m].rq, op.s)     \* a datagram has one scope
                                   ELSE ReadOK(s, <<op.c, 0>>, op.s, op.i, e.r), "the connection scope returned a wrong value")
     [] op.a = "isup" ->
          GG(P.mode[op.c] # "udp",
             G({"C10"}, MayEnd(P, s, op.c, s.t) \/ e.r = 1, "a live connection is reported offline")
             \cup G({"C10"}, ~op.over \/ e.r = 0, "an ended connection is reported online"))
     [] op.a = "rread" ->
          G({"C21"}, e.r = 1 \/ s.cn[op.c].fin \/ s.cn[op.c].shut \/ s.cn[op.c].rst \/ MayEnd(P, s, op.c, s.t) \/ s.t >= s.cn[op.c].rdlo - SL,
            "a raw read failed although the stream is alive")
     [] OTHER -> {}

GAct(P, s, e) ==
  CASE e.a = "greq" -> G({"C08"}, e.r = KeyVal(s.ch[e.c][e.m].rq, e.s), "the request scope returned a wrong value")
    [] e.a = "sres" -> G({"C08"}, e.r = 1, "a reserved key was accepted")
    [] e.a = "bind" -> G({"C01", "C02", "C05", "C20"}, e.r = 1, "Bind did not return what the client sent")
    [] e.a = "ip"   -> G({"C20"}, P.mode[e.c] # "udp" \/ e.r = 1, "wrong sender address")
    [] OTHER -> {}

GRx(P, s, e) ==
  LET c == e.c
      base == {"C14", "C15"} \cup (IF P.mode[c] = "udp" THEN {"C20"} ELSE IF P.mode[c] = "raw" THEN {"C21"} ELSE {}) IN
  G(base, ~e.bad, "the client received a malformed block")
  \cup UNION {LET f == e.fr[j] IN
        IF f.t \notin DOMAIN s.tg THEN G(base, FALSE, "the client received a block nobody sent")
        ELSE LET g == s.tg[f.t]
                 tags == (IF g.kind = "sendto" THEN {"C15"} ELSE {"C14"}) \cup (base \cap {"C20", "C21"}) IN
             G(tags, c \in g.dst, "a block was delivered to the wrong client")
             \cup G(tags, g.rx = 0 /\ ~\E j2 \in 1..(j - 1) : e.fr[j2].t = f.t, "a block was delivered twice")
             \cup G(tags, f.ok /\ f.id = g.id /\ f.u = g.u, "a block was delivered with wrong content")
             \cup G(tags, g.r # 0, "a block was delivered although sending it reported an error")
        : j \in 1..Len(e.fr)}

StopTags(P) == {"C16"} \cup (P.ctx \cap {"C17"})

GSrv(P, s, e) ==
  CASE e.e = "listen" ->
         G({"C16", "C17"}, s.loose \/ s.sv # "down" \/ s.inprog \in {"start", "restart"}, "the server listens although it is stopped")
         \cup G({"C17"}, s.inprog # "restart" \/ s.rfi = s.rfn, "a listener was started before the functions given to Restart had run")
    [] e.e = "unlisten" -> G(Serving \cup {"C18"} \cup (P.ctx \cap {"C26"}), s.stopping, "a listener was closed although nobody stopped the server")
    [] e.e = "sret" -> G(Serving \cup {"C18"} \cup (P.ctx \cap {"C26"}), s.stopping \/ s.ever # "no" \/ s.sv = "down", "a serving call returned although nobody stopped the server")
    [] e.e = "stopr" ->
         GG(~s.loose,
            G(StopTags(P), (e.r = 1) = (s.sv = "up"), "Stop returned the wrong result")
            \cup GG(e.r = 1, G({"C16"} \cup (P.ctx \cap {"C26"}), s.open = {}, "a listener is still open after Stop has returned")))
    [] e.e = "startr" -> GG(~s.loose, G({"C17"}, (e.r = 1) = (s.sv = "down"), "Start returned the wrong result"))
    [] e.e = "restartr" ->
         GG(~s.loose,
            G({"C17"}, (e.r = 1) = (s.sv = "up"), "Restart returned the wrong result")
            \cup G({"C17"}, s.rfi = IF e.r = 1 THEN s.rfn ELSE 0, "not all functions given to Restart have run"))
    [] e.e = "againr" -> GG(~s.loose, G({"C26"}, e.r = 1, "a serving call on an address that cannot be listened on reported no failure"))
    [] e.e = "rf" ->
         G({"C17"}, s.inprog = "restart" /\ e.i = s.rfi + 1 /\ s.open = {}, "the functions given to Restart did not run in order between stop and start")
    [] OTHER -> {}

GConn(P, s, e) ==
  LET c == e.c IN
  IF c < 1 THEN {<<{"C10"}, "a callback ran for no client's connection">>}
  ELSE LET k == s.cn[c] IN
  CASE e.e = "acc"  -> G({"C16"}, s.loose \/ s.sv # "down" \/ s.inprog # "", "a connection was accepted after Stop")
    [] e.e = "conn" -> G({"C10", "C21"}, k.ob = 0 /\ k.acc > 0, "OnConnect ran twice or without a connection")
    [] e.e = "cls"  -> G({"C10", "C21"}, k.cl = 0, "OnClose ran twice")
                       \cup G({"C10"} \cup (P.ctx \cap {"C21"}), IF P.mode[c] = "raw" THEN Done(P, s, c, 1) ELSE MayEnd(P, s, c, e.t), "OnClose ran on a live connection")
                       \cup G({"C10"}, ~P.cfg.occ \/ k.orr = 1, "OnClose ran before OnConnect had returned")
    [] e.e = "sclose" -> G(CloseTags(P), MayEnd(P, s, c, e.t), "the server closed a connection for no reason")
                         \cup GG(P.cfg.hb.loss, G({"C11"},
                              \/ k.ls > 0
                              \/ (P.mode[c] = "raw" /\ (k.closing \/ k.mayst \/ Done(P, s, c, 1)))
                              \/ (P.mode[c] = "pack" /\ (k.closing \/ k.mayst \/ k.fin \/ k.shut \/ k.rst \/ MayFatal(P, s, c) \/ AuMay(P, s, c, e.t) \/ RdMay(P, s, c, e.t)))
                              \/ ~HbMay(P, s, c, e.t), "a connection was dropped for lost heartbeats before the loss callback ran"))
    [] e.e = "loss" -> G({"C11"}, k.ls = 0, "the loss callback ran twice")
                       \cup G({"C11"}, HbMay(P, s, c, e.t), "the loss callback ran although heartbeats arrived in time")
                       \cup G({"C11"}, ~k.sc \/ (~k.hbcause /\ ~k.over), "the loss callback ran after the close")
    [] OTHER -> {}

(* a quiet point: everything that had to happen has happened *)
OpenOK(P, s, o, t) ==
  LET op == s.ops[o] IN
  CASE op.a = "block" -> TRUE
    [] op.a = "sleep" -> t <= op.t + op.n
    [] op.a = "next"  -> TRUE
    [] op.a \in {"reply", "tocon", "sendto", "rwrite", "rwritew"} ->
         /\ \E c \in 1..P.N : s.cn[c].win > 0 /\ ~s.cn[c].sc /\ ~Gone(s, c)
         /\ t <= s.cn[op.dst].wdhi + SL
    [] op.a = "rread" -> LET k == s.cn[op.c] IN
         k.rn = k.pu /\ ~k.fin /\ ~k.shut /\ ~k.rst /\ ~k.sc /\ t <= k.rdhi + SL
    [] OTHER -> FALSE

Live(P, s) == {c \in 1..P.N : P.mode[c] # "udp" /\ s.cn[c].acc > 0 /\ ~s.cn[c].sc}
Busy(P, s) == \E c \in 1..P.N : \E m \in 1..P.nm[c] : Running(P, s, c, m)

QPool(P, s, e) ==
  LET D == {c \in 1..P.N : s.cn[c].sc} IN
  IF PoolPend(s) = {}
  THEN   \* nothing but ends and removals is left, and they commute: no need to try all their orders
    LET CanGo(x, c) == \/ c \in x.dead
                       \/ c \in D /\ P.mode[c] # "udp" /\ s.cn[c].acc > 0 /\ MayEnd(P, s, c, e.t)
                       \/ s.cn[c].mayst /\ ~P.cfg.sig IN
    {[x EXCEPT !.dead = D, !.p = [i \in DOMAIN @ |-> e.pool[i]]] :
       x \in {x \in s.ps : /\ x.dead \subseteq D
                           /\ \A i \in 1..Len(P.names) : \/ e.pool[i] = x.p[i] /\ x.p[i] \notin D
                                                         \/ e.pool[i] = 0 /\ x.p[i] # 0 /\ CanGo(x, x.p[i])}}
  ELSE
  LET X == PoolClose(P, s, s.ps, e.t) IN
  {[x EXCEPT !.dead = D] : x \in {x \in X : /\ \A c \in D : ~Holds(x, c)
                                          /\ x.dead \subseteq D
                                          /\ \A i \in 1..Len(P.names) : x.p[i] = e.pool[i]}}

GQuiet(P, s, e) ==
  G({"ALL"}, ~e.live, "the server never comes to rest")
  \cup UNION {UNION {
         G(LostTags(P), Started(s, c, m) \/ ~Obliged(P, s, c, m), "a complete message was not dispatched")
         \cup G({"C05", "C06", "C07"} \cup (P.ctx \cap {"C22", "C25", "C09", "C21", "C20"}),
                ~(Running(P, s, c, m) /\ s.ch[c][m].stk = <<>>), "a chain stopped before its end")
         : m \in 1..P.nm[c]} : c \in {c \in 1..P.N : P.mode[c] # "raw"}}
  \cup UNION {G({"C21"} \cup (P.ctx \cap {"C16", "C17", "C25"}), s.cn[c].acc = 0 \/ Started(s, c, 1) \/ s.cn[c].sc, "a raw connection did not get its handler")
              \cup G({"C21", "C07"}, ~(Running(P, s, c, 1) /\ s.ch[c][1].stk = <<>>), "a raw chain stopped before its end")
              : c \in {c \in 1..P.N : P.mode[c] = "raw"}}
  \cup UNION {
      LET k == s.cn[c]
          mt == MustEndTags(P, s, c, e.t) IN
      G(Serving, k.acc > 0 \/ ~k.up \/ s.sv # "up", "a connection was not accepted")
      \cup GG(k.acc > 0,
        G(mt, mt = {} \/ k.sc, "the server did not close a connection that has ended")
        \cup G({"C10", "C21"}, P.cfg.occ => k.orr = 1, "OnConnect did not run")
        \cup G({"C10", "C21"}, (P.cfg.ocl /\ k.sc /\ (P.mode[c] = "raw" => Done(P, s, c, 1))) => k.cl = 1, "OnClose did not run for an ended connection")
        \cup G({"C10", "C21"}, k.cl > 0 => k.sc, "OnClose ran but the connection is still open")
        \cup G({"C10"}, e.on[c] = -1 \/ e.on[c] = (IF k.sc THEN 0 ELSE 1), "the context misreports whether it is online")
        \cup GG(P.cfg.hb.loss /\ k.hbcause, G({"C11"}, k.ls = 1, "the loss callback did not run"))
        \cup G({"C14", "C15", "C21"}, k.part = 0 \/ (k.pf /\ P.mode[c] = "raw") \/ k.sc \/ k.win > 0 \/ \E o \in DOMAIN s.ops : Has(s.ops[o], "tg"), "part of a block is missing"))
      : c \in {c \in 1..P.N : P.mode[c] # "udp"}}
  \cup UNION {G(OpTags(s.ops[o].a) \cup (IF s.ops[o].a \in {"reply", "tocon", "sendto", "rwrite", "rwritew"} /\ e.t > s.cn[s.ops[o].dst].wdhi THEN {"C19"} ELSE {}),
                OpenOK(P, s, o, e.t), "an operation did not return: " \o s.ops[o].a) : o \in DOMAIN s.ops}
  \cup UNION {LET g == s.tg[n] IN
         G(IF g.kind = "sendto" THEN {"C15"} ELSE UNION {ReplyTags(P, c) : c \in g.dst},
           g.r # 1 \/ g.rx = 1 \/ \E c \in g.dst : Gone(s, c) \/ s.cn[c].win > 0 \/ g.i <= s.cn[c].wf, "a block that was sent successfully did not arrive")
         : n \in DOMAIN s.tg}
  \cup GG(P.cfg.pool /\ e.haspool /\ ~s.pbroken,
         G({"C13"} \cup (P.ctx \cap {"C16"}), QPool(P, s, e) # {}, "the pool does not hold what it should"))
  \cup GG(~s.loose,
         GG(s.sv = "up" \/ s.sv = "init", G({"C17"} \cup Serving \cup (P.ctx \cap {"C26"}), \A l \in 1..P.L : e.lis[l] = 1, "an address is not being served"))
         \cup GG(s.sv = "down" /\ s.inprog = "", G({"C16"} \cup (P.ctx \cap {"C26"}), \A l \in 1..P.L : e.lis[l] = 0, "an address is still being served after Stop")
                                 \cup G({"C18", "C16"} \cup (P.ctx \cap {"C26"}), s.sret = 1..P.L, "a serving call did not return after Stop"))
         \cup G(IF s.inprog = "again" THEN {"C26"} ELSE {"C16", "C17", "C18"}, s.inprog = "", "Stop, Start, Restart or a failing serving call did not return"))
  \cup GG(s.g0 >= 0 /\ Live(P, s) = {} /\ ~Busy(P, s) /\ DOMAIN s.ops = {} /\ ~s.loose,
         G({"C18"} \cup (P.ctx \cap {"C21"}), e.g <= (IF s.sv = "down" THEN 0 ELSE s.g0 + (IF s.ever = "no" THEN 0 ELSE P.L)), "goroutines of ended connections or served requests are left"))

Guards(P, s, e) ==
  CASE e.e = "in" -> GIn(P, s, e)
    [] e.e = "out" -> GOut(P, s, e)
    [] e.e = "e" -> GRet(P, s, e)
    [] e.e = "a" -> GAct(P, s, e)
    [] e.e = "rx" -> GRx(P, s, e)
    [] e.e \in {"listen", "unlisten", "sret", "stopr", "startr", "restartr", "rf", "againr"} -> GSrv(P, s, e)
    [] e.e \in {"acc", "conn", "cls", "sclose", "loss"} -> GConn(P, s, e)
    [] e.e = "q" -> GQuiet(P, s, e)
    [] e.e = "rd" -> G({"C21"}, e.ok /\ e.n <= s.cn[e.c].pu, "the raw reader returned bytes the client did not send")
    [] e.e = "reg" -> G({"C06"}, e.pan = Refused(P.cfg, e.i), IF e.pan THEN "a consistent registration was refused" ELSE "an inconsistent registration was accepted")
    [] e.e = "end" -> G({"C18"} \cup (P.ctx \cap {"C16", "C17", "C21", "C20"}), ~e.leak, "goroutines are left after Stop with all connections ended")
    [] e.e = "race" -> {<<{"ALL"}, "two goroutines used the same memory without synchronisation">>}
    [] e.e \in {"crash", "hang"} -> {<<{"ALL"}, "the process died: " \o e.e>>}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Effects *)

Beat(s, c, t) == [s EXCEPT !.cn[c].hbp = t, !.cn[c].hbhi = Max2(@, t + SL)]
Normal(s, t) ==   \* silent heartbeats take effect within the slack
  IF \E c \in DOMAIN s.cn : s.cn[c].hbp > 0 /\ t > s.cn[c].hbp + SL
  THEN [s EXCEPT !.cn = [c \in DOMAIN @ |-> IF @[c].hbp > 0 /\ t > @[c].hbp + SL
                                            THEN [@[c] EXCEPT !.hblo = Max2(@, s.cn[c].hbp), !.hbp = 0] ELSE @[c]]]
  ELSE s

InvBeat(P, s, c, m, t) ==   \* the built-in heartbeat handler has run
  IF P.inv[c][m] /\ P.mode[c] = "pack" THEN Beat(s, c, t) ELSE s

AIn(P, s, e) ==
  IF e.c < 1 \/ e.m < 1 THEN s
  ELSE [s EXCEPT !.ch[e.c][e.m].pos = @ + 1,
                 !.ch[e.c][e.m].stk = Append(@, [k |-> e.k, nx |-> FALSE])]

IsLast(P, c, m, pos) == pos = Len(Chain(P, c, m))

AOut(P, s, e) ==
  IF e.c < 1 \/ e.m < 1 \/ s.ch[e.c][e.m].stk = <<>> THEN s
  ELSE LET x == s.ch[e.c][e.m]
           s1 == [s EXCEPT !.ch[e.c][e.m].stk = SubSeq(@, 1, Len(@) - 1), !.ch[e.c][e.m].pn = @ \/ e.pan,
                              \* a panic passes through the Next calls below it, which then return to nobody
                              !.ops = IF e.pan THEN [o \in {o \in DOMAIN @ : ~(@[o].a = "next" /\ @[o].c = e.c /\ @[o].m = e.m)} |-> @[o]] ELSE @] IN
       IF Len(x.stk) = x.pos /\ IsLast(P, e.c, e.m, x.pos) /\ ~x.ab /\ ~x.pn THEN InvBeat(P, s1, e.c, e.m, e.t)
       ELSE IF IsLast(P, e.c, e.m, x.pos) /\ ~x.ab /\ ~x.pn THEN InvBeat(P, s1, e.c, e.m, e.t) ELSE s1

TopNext(s, c, m, v) ==
  LET n == Len(s.ch[c][m].stk) IN IF n = 0 THEN s ELSE [s EXCEPT !.ch[c][m].stk[n].nx = v]

Without1(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

AB(P, s, e) ==
  LET c == e.c
      dst == IF e.a = "tocon" THEN e.x ELSE c
      op0 == [a |-> e.a, c |-> c, m |-> e.m, s |-> e.s, n |-> e.n, t |-> e.t, i |-> s.i, dst |-> dst,
              over |-> IF P.mode[dst] = "udp" THEN s.sv = "down" ELSE s.cn[dst].over]
      op1 == IF Has(e, "tg") THEN op0 @@ [tg |-> e.tg] ELSE op0
      op == IF Has(e, "rr") THEN op1 @@ [rr |-> e.rr] ELSE op1
      s1 == [s EXCEPT !.ops = @ @@ (e.o :> op)]
      s2 == IF Has(e, "tg")
            THEN [s1 EXCEPT !.tg = @ @@ (e.tg :> [kind |-> e.a, dst |-> IF e.a = "sendto" THEN 1..P.N ELSE {dst}, id |-> e.id, u |-> e.u, r |-> -1, rx |-> 0, i |-> s.i])]
            ELSE s1
      old == s.cn[c] IN
  CASE e.a = "next" -> TopNext(s2, c, e.m, TRUE)
    [] e.a = "close" -> IF P.mode[c] = "udp" THEN s2 ELSE [s2 EXCEPT !.cn[c].closing = TRUE]
    [] e.a = "pass" -> [s2 EXCEPT !.cn[c].pb = IF @ = 0 THEN s.i ELSE @, !.cn[c].pbt = IF old.pb = 0 THEN e.t ELSE @]
    [] e.a = "deny" -> [s2 EXCEPT !.cn[c].db = IF @ = 0 THEN s.i ELSE @]
    [] e.a = "scon" -> [s2 EXCEPT !.cw = Append(@, [sc |-> <<c, 0>>, key |-> e.s, v |-> e.n, b |-> s.i, e |-> 0, o |-> e.o])]
    [] e.a \in {"dl", "rdl", "wdl"} /\ P.mode[c] # "udp" ->
         LET d == IF e.n = -1 THEN NONE ELSE e.t + e.n
             r1 == IF e.a \in {"dl", "rdl"} THEN [s2 EXCEPT !.cn[c].rdlo = Min2(@, d), !.cn[c].rdhi = Max2(@, d), !.cn[c].rdx = @ \/ RdMay(P, s, c, e.t)] ELSE s2 IN
         IF e.a \in {"dl", "wdl"} THEN [r1 EXCEPT !.cn[c].wdlo = Min2(@, d), !.cn[c].wdhi = Max2(@, d), !.cn[c].wdx = IF e.t >= s.cn[c].wdlo - SL THEN e.t ELSE @] ELSE r1
    [] e.a \in {"online", "offline"} ->      \* racing with a Stop(true) it may take itself, or whoever held the name, out of the pool in time
         [s2 EXCEPT !.cn[c].npo = @ + 1,
                    !.stpool = {d \in @ : ~(e.a = "online" /\ \E x \in s.ps : NameIx(P, e.s) > 0 /\ x.p[NameIx(P, e.s)] = d)}]
    [] OTHER -> s2

AE(P, s, e) ==
  IF e.o \notin DOMAIN s.ops THEN s
  ELSE LET op == s.ops[e.o]
           c == op.c
           pools == IF op.a \in PoolOps /\ P.cfg.pool /\ ~s.pbroken THEN PoolRet(P, s, e.o, e.r, e.t) ELSE {}
           s1 == [s EXCEPT !.ops = Without1(@, e.o)]
           s2 == IF Has(op, "tg")
                 THEN [s1 EXCEPT !.tg[op.tg].r = e.r,
                                 !.tg[op.tg].dst = IF op.a = "sendto" /\ e.r = 1 /\ P.cfg.pool THEN {Res(x, e.o) : x \in pools} ELSE @,
                                 !.cn[c].pf = @ \/ (e.r = 0 /\ op.s # "BAD")]
                 ELSE s1
           s2a == IF op.a \in Wk /\ e.r = 0 /\ op.s # "BAD"
                  THEN [s2 EXCEPT !.cn = [d \in DOMAIN @ |-> IF (op.a = "sendto" \/ d = op.dst) /\ WdMay(s, d, op.t, e.t) THEN [@[d] EXCEPT !.wf = s.i] ELSE @[d]]] ELSE s2
           s2b == IF op.a = "sendto" /\ e.r = 0 THEN [s2a EXCEPT !.cn = [d \in DOMAIN @ |-> [@[d] EXCEPT !.pf = TRUE]]] ELSE s2a
           s3 == IF op.a \in PoolOps /\ P.cfg.pool /\ ~s.pbroken
                 THEN IF pools = {} THEN [s2b EXCEPT !.pbroken = TRUE]
                      ELSE [s2b EXCEPT !.ps = {ForgetOp(x, e.o) : x \in pools}]
                 ELSE IF op.a \in OwnOps THEN [s2b EXCEPT !.os = {ForgetOp(x, e.o) : x \in OwnRet(P, s, e.o, e.r)}]
                 ELSE s2b IN
  CASE op.a = "next" -> TopNext(s3, c, op.m, FALSE)
    [] op.a = "close" -> IF P.mode[c] = "udp" THEN s3 ELSE [s3 EXCEPT !.cn[c].closed = TRUE]
    [] op.a = "beat" -> [s3 EXCEPT !.cn[c].hbp = op.t, !.cn[c].hbhi = Max2(@, e.t + SL)]   \* may still lose against an expiry already decided
    [] op.a = "pass" -> [s3 EXCEPT !.cn[c].pe = IF @ = 0 THEN s.i ELSE @, !.cn[c].pet = IF s.cn[c].pe = 0 THEN e.t ELSE @]
    [] op.a = "deny" -> [s3 EXCEPT !.cn[c].de = IF @ = 0 THEN s.i ELSE @]
    [] op.a = "scon" /\ P.mode[c] = "udp" -> [s3 EXCEPT !.ch[c][op.m].rq = Append(@, <<op.s, op.n>>)]
    [] op.a = "scon" -> [s3 EXCEPT !.cw = [i \in DOMAIN @ |-> IF @[i].o = e.o THEN [@[i] EXCEPT !.e = s.i] ELSE @[i]]]
    [] op.a \in {"dl", "rdl", "wdl"} /\ P.mode[c] # "udp" ->
         LET race == s.cn[c].dle > op.i \/ \E o \in DOMAIN s3.ops : s3.ops[o].c = c /\ s3.ops[o].a \in {"dl", "rdl", "wdl"}     \* with another one: either may be the last
             Lo(old) == LET d == IF op.n = -1 THEN NONE ELSE op.t + op.n IN IF race THEN Min2(old, d) ELSE d
             Hi(old) == LET d == IF op.n = -1 THEN NONE ELSE Max2(e.t + op.n, Min2(old, e.t)) IN IF race THEN Max2(old, d) ELSE d      \* one in the past counts from now on
             r0 == [s3 EXCEPT !.cn[c].dle = s.i]
             r1 == IF op.a \in {"dl", "rdl"} THEN [r0 EXCEPT !.cn[c].rdlo = Lo(@), !.cn[c].rdhi = Hi(@), !.cn[c].rdx = @ \/ RdMay(P, s, c, e.t)] ELSE r0 IN
         IF op.a \in {"dl", "wdl"} THEN [r1 EXCEPT !.cn[c].wdlo = Lo(@), !.cn[c].wdhi = Hi(@), !.cn[c].wdx = IF e.t >= s.cn[c].wdlo - SL THEN e.t ELSE @] ELSE r1
    [] OTHER -> s3

AAct(P, s, e) ==
  CASE e.a = "abort" -> [s EXCEPT !.ch[e.c][e.m].ab = TRUE]
    [] e.a = "panic" -> [s EXCEPT !.ch[e.c][e.m].pn = TRUE]
    [] e.a = "sreq"  -> [s EXCEPT !.ch[e.c][e.m].rq = Append(@, <<e.s, e.n>>)]
    [] OTHER -> s

ARx(P, s, e) ==
  LET tags == {e.fr[j].t : j \in 1..Len(e.fr)} \cap DOMAIN s.tg IN
  [s EXCEPT !.tg = [n \in DOMAIN @ |-> IF n \in tags THEN [@[n] EXCEPT !.rx = @ + 1] ELSE @[n]],
            !.cn[e.c].part = e.part]

APush(P, s, e) ==
  LET c == e.c IN
  IF P.mode[c] = "udp" THEN IF e.ok THEN [s EXCEPT !.cn[c].dv = @ \cup {e.n}, !.cn[c].pu = e.n] ELSE s
  ELSE LET s1 == [s EXCEPT !.cn[c].pu = e.n] IN
       IF P.mode[c] = "pack" /\ \E m \in 1..P.nm[c] :
            /\ P.inv[c][m] /\ Chain(P, c, m) = <<>> /\ P.need[c][m] > s.cn[c].pu /\ P.need[c][m] <= e.n
            /\ m < P.f1[c] /\ m < P.k1[c] /\ ~s.cn[c].over
       THEN Beat(s1, c, e.t) ELSE s1

AAcc(P, s, e) ==
  LET D(x) == IF x > 0 THEN x ELSE NONE
      rd == IF P.cfg.rdl > 0 THEN P.cfg.rdl ELSE D(P.cfg.dl)
      wd == IF P.cfg.wdl > 0 THEN P.cfg.wdl ELSE D(P.cfg.dl) IN
  [s EXCEPT !.cn[e.c].acc = s.i, !.cn[e.c].ta = e.t, !.cn[e.c].tc = e.t + SL, !.cn[e.c].hblo = e.t, !.cn[e.c].hbhi = e.t + SL,
            !.cn[e.c].rdlo = rd, !.cn[e.c].rdhi = rd, !.cn[e.c].wdlo = wd, !.cn[e.c].wdhi = wd,
            !.cn[e.c].mayst = s.stall]

UdpOld(s, c) ==    \* the socket is being closed: datagrams not yet handled may get lost, replies to earlier ones may fail
  [s.cn[c] EXCEPT !.exm = {m \in s.cn[c].dv : ~Started(s, c, m)} \cup @, !.oldm = s.cn[c].dv]

AStopBegin(P, s, all) ==
  [s EXCEPT !.stopping = TRUE, !.stall = all /\ (P.cfg.sig \/ P.cfg.pool),
     !.cn = [c \in DOMAIN @ |->
        IF P.mode[c] = "udp"
        THEN UdpOld(s, c)
        ELSE IF ~all \/ @[c].acc = 0 THEN @[c]
        ELSE IF P.cfg.sig THEN [@[c] EXCEPT !.mayst = TRUE]
        ELSE IF P.cfg.pool THEN [@[c] EXCEPT !.mayst = TRUE, !.npo = 0] ELSE @[c]],
     !.stpool = IF all /\ ~P.cfg.sig /\ P.cfg.pool /\ ~s.pbroken /\ PoolPend(s) = {}
                THEN {c \in 1..P.N : \A x \in PoolClose(P, s, s.ps, s.t) : \E i \in DOMAIN x.p : x.p[i] = c} ELSE {}]

AStopEnd(P, s, all) ==
  [s EXCEPT !.stopping = FALSE, !.stall = FALSE,
     !.cn = [c \in DOMAIN @ |->
        IF P.mode[c] = "udp" \/ ~all \/ @[c].acc = 0 THEN @[c]
        ELSE IF P.cfg.sig \/ (c \in s.stpool /\ @[c].npo = 0) THEN [@[c] EXCEPT !.must = TRUE] ELSE @[c]]]

Down(s) == [s EXCEPT !.sv = "down"]

ASrv(P, s, e) ==
  CASE e.e = "listen" -> [s EXCEPT !.open = @ \cup {e.l}]
    [] e.e = "unlisten" -> [s EXCEPT !.open = @ \ {e.l},      \* connections nobody has accepted yet are lost
           !.cn = [c \in DOMAIN @ |-> 
              IF P.scn.conns[c].l # e.l THEN @[c] ELSE IF P.mode[c] = "udp" THEN UdpOld(s, c) ELSE IF @[c].acc = 0 THEN [@[c] EXCEPT !.up = FALSE] ELSE @[c]]]
    [] e.e = "sret" -> [s EXCEPT !.sret = @ \cup {e.l}]
    [] e.e = "stop" -> IF s.sv # "up" THEN [s EXCEPT !.inprog = "stop", !.stopping = (s.sv # "down")]
                       ELSE [AStopBegin(P, s, e.all) EXCEPT !.inprog = IF e.all THEN "stopall" ELSE "stop"]
    [] e.e = "stopr" -> IF s.sv = "up" /\ e.r = 1 THEN [Down(AStopEnd(P, s, s.inprog = "stopall")) EXCEPT !.inprog = ""]
                        ELSE [s EXCEPT !.inprog = "", !.stopping = FALSE, !.loose = s.loose \/ s.sv \notin {"up", "down"}]
    [] e.e = "start" -> [s EXCEPT !.inprog = "start", !.ever = "yes", !.rfn = 0, !.rfi = 0]
    [] e.e = "startr" -> [s EXCEPT !.inprog = "", !.sv = IF e.r = 1 /\ s.sv = "down" THEN "starting" ELSE @]
    [] e.e = "restart" -> LET s1 == IF s.sv = "up" THEN AStopBegin(P, s, e.all) ELSE s IN
                          [s1 EXCEPT !.inprog = "restart", !.rfn = e.n, !.rfi = 0, !.ever = "yes",
                                     !.stopping = (s.sv # "down"),
                                     !.stall = e.all /\ (P.cfg.sig \/ P.cfg.pool) /\ s.sv = "up"]
    [] e.e = "again" -> IF s.sv \in {"up", "init"} /\ s.inprog = "" /\ e.l \in s.open THEN [s EXCEPT !.inprog = "again"] ELSE [s EXCEPT !.loose = TRUE]
    [] e.e = "againr" -> [s EXCEPT !.inprog = ""]
    [] e.e = "rf" -> LET s1 == AStopEnd(P, s, s.stall \/ s.stpool # {}) IN [s1 EXCEPT !.rfi = @ + 1]
    [] e.e = "restartr" -> LET s1 == IF s.stopping THEN AStopEnd(P, s, s.stall \/ s.stpool # {}) ELSE s IN
                           [s1 EXCEPT !.inprog = "", !.stopping = FALSE, !.sv = IF e.r = 1 THEN "starting" ELSE @]
    [] OTHER -> s

AConn(P, s, e) ==
  IF e.c < 1 THEN s ELSE
  LET c == e.c IN
  CASE e.e = "dial" -> [s EXCEPT !.cn[c].up = e.ok]
    [] e.e = "acc" -> AAcc(P, s, e)
    [] e.e = "conn" -> [s EXCEPT !.cn[c].ob = @ + 1]
    [] e.e = "connret" -> [s EXCEPT !.cn[c].orr = @ + 1, !.cn[c].tc = e.t + SL, !.cn[c].hbhi = Max2(@, e.t + SL)]
    [] e.e = "cls" -> [s EXCEPT !.cn[c].cl = @ + 1, !.cn[c].cl0 = s.cn[c].pu]
    [] e.e = "loss" -> [s EXCEPT !.cn[c].ls = @ + 1]
    [] e.e = "fin" -> [s EXCEPT !.cn[c].fin = TRUE]
    [] e.e = "shut" -> [s EXCEPT !.cn[c].shut = TRUE]
    [] e.e = "rst" -> [s EXCEPT !.cn[c].rst = TRUE, !.cn[c].exc = TRUE]
    [] e.e = "open" -> [s EXCEPT !.cn[c].win = 0]
    [] e.e = "sclose" ->
         [s EXCEPT !.cn[c].sc = TRUE,
                   !.cn[c].exc = @ \/ ServerCause(P, s, c, e.t),
                   !.cn[c].hbcause = HbMay(P, s, c, e.t) /\ ~(s.cn[c].closing \/ s.cn[c].mayst \/ s.cn[c].fin \/ s.cn[c].shut \/ s.cn[c].rst
                                        \/ MayFatal(P, s, c) \/ AuMay(P, s, c, e.t) \/ RdMay(P, s, c, e.t) \/ (P.mode[c] = "raw" /\ Done(P, s, c, 1)))]
    [] OTHER -> s

Dead(P, s, c, m) ==   \* at a quiet point on an ended connection: this message will never be dispatched
  ~Started(s, c, m) /\ Prev(P, s, c, m)

AQuiet(P, s, e) ==
  LET s1 == [s EXCEPT !.nq = @ + 1, !.g0 = IF @ < 0 THEN e.g ELSE @,
               !.sv = IF @ \in {"starting", "init"} THEN "up" ELSE @,
               !.cn = [c \in DOMAIN @ |->
                  IF P.mode[c] = "udp"
                  THEN IF s.sv = "down" THEN [@[c] EXCEPT !.frb = {m \in s.cn[c].dv : ~Started(s, c, m)}] ELSE @[c]
                  ELSE LET k == [@[c] EXCEPT !.hblo = Max2(@, s.cn[c].hbp), !.hbp = 0] IN
                       IF k.sc THEN [k EXCEPT !.over = TRUE,
                                        !.frb = @ \cup {m \in 1..P.nm[c] : P.mode[c] = "pack" /\ (Dead(P, s, c, m) \/ ~Complete(P, s, c, m))}]
                       ELSE [k EXCEPT !.mayst = @ /\ s.inprog # ""]]] IN
  IF P.cfg.pool /\ e.haspool /\ ~s.pbroken
  THEN LET X == QPool(P, s, e) IN
       IF X = {} THEN [s1 EXCEPT !.pbroken = TRUE] ELSE [s1 EXCEPT !.ps = X]
  ELSE s1

Apply(P, s0, e) ==
  LET s == [Normal(s0, e.t) EXCEPT !.i = @ + 1, !.t = e.t] IN
  CASE e.e = "in" -> AIn(P, s, e)
    [] e.e = "out" -> AOut(P, s, e)
    [] e.e = "b" -> AB(P, s, e)
    [] e.e = "e" -> AE(P, s, e)
    [] e.e = "a" -> AAct(P, s, e)
    [] e.e = "rx" -> ARx(P, s, e)
    [] e.e = "push" -> APush(P, s, e)
    [] e.e \in {"listen", "unlisten", "sret", "stop", "stopr", "start", "startr", "restart", "restartr", "rf", "again", "againr"} -> ASrv(P, s, e)
    [] e.e \in {"dial", "acc", "conn", "connret", "cls", "sclose", "loss", "fin", "shut", "rst", "open"} -> AConn(P, s, e)
    [] e.e = "q" -> AQuiet(P, s, e)
    [] e.e = "rd" -> [s EXCEPT !.cn[e.c].rn = e.n]
    [] OTHER -> s

(* guards are evaluated at the event's own time *)
GuardsAt(P, s, e) == Guards(P, [Normal(s, e.t) EXCEPT !.i = @ + 1, !.t = e.t], e)
=============================================================================
