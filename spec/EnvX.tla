-------------------------------- MODULE EnvX --------------------------------
(* Complete enumerations of small environments of a tcpx server: every registration program, chain pattern,          *)
(* segmentation, pool history, stop/start sequence, beat pattern ... up to a bound that depends on TIER.             *)
EXTENDS Env, SequencesExt

TIER == IOEnv.TIER
Q    == TIER = "quick"

-----------------------------------------------------------------------------
(* building blocks *)

LTCP == [n |-> "tcp", a |-> "127.0.0.1:9001", mode |-> "pack", buf |-> 0]
LUNX == [n |-> "unix", a |-> "/tmp/vx2", mode |-> "pack", buf |-> 0]
LUDP == [n |-> "udp", a |-> "127.0.0.1:9001", mode |-> "udp", buf |-> 0]
LRAW == [n |-> "tcp", a |-> "127.0.0.1:9003", mode |-> "raw", buf |-> 0]
HB0  == [on |-> FALSE, iv |-> 50000, id |-> 1392, thru |-> FALSE, loss |-> FALSE]
AU0  == [on |-> FALSE, dl |-> 60000, id |-> 1393, thru |-> FALSE]
ADDH(id) == PCALL("add", id, "", <<>>, 0)
CFG0 == [lis |-> <<LTCP>>, tls |-> FALSE, mar |-> "json", max |-> 0, pool |-> FALSE, sig |-> FALSE, hb |-> HB0, auth |-> AU0, onmsg |-> FALSE, occ |-> TRUE, ocl |-> TRUE,
         dl |-> 0, rdl |-> 0, wdl |-> 0, y |-> 0, prog |-> <<ADDH(1)>>]
U0   == [id |-> 1, rt |-> "none", u |-> "", bl |-> 3, mal |-> "", pipe |-> 0, do |-> <<>>, size |-> 0, decl |-> 0, hk |-> ""]
C0   == [l |-> 1, units |-> <<>>, eof |-> FALSE, win |-> 0, rs |-> <<>>, oc |-> <<>>, cl |-> <<>>, ls |-> <<>>, raw |-> <<>>, rem |-> ""]
A0(a) == ACT("h", a, 0, "", 0)
AS(a, str) == ACT("h", a, 0, str, 0)
AN(a, k) == ACT("h", a, k, "", 0)

ONE(op) == <<[ST0 EXCEPT !.op = op]>>
S    == ONE("settle")
D(c) == <<[ST0 EXCEPT !.op = "dial", !.c = c]>>
OP(op, c) == <<[ST0 EXCEPT !.op = op, !.c = c]>>
PU(c, u) == <<[ST0 EXCEPT !.op = "push", !.c = c, !.u = u]>>
ADV(k) == <<[ST0 EXCEPT !.op = "adv", !.n = k]>>
ACTS(c, a) == <<[ST0 EXCEPT !.op = "act", !.c = c, !.act = [a EXCEPT !.k = "st"]]>>
ACTG(c, a) == <<[ST0 EXCEPT !.op = "act", !.c = c, !.g = TRUE, !.act = [a EXCEPT !.k = "st"]]>>
SRV(op, all) == <<[ST0 EXCEPT !.op = op, !.s = IF all THEN "all" ELSE "", !.n = 1]>>

Rem(l, c) == IF Unix(l.n) THEN "@c" \o ToString(c) ELSE "10.1." \o ToString(2 + (c \div 250)) \o "." \o ToString(1 + (c % 250)) \o ":" \o ToString(40000 + c)
SC(cfg, conns, steps) == [cfg |-> cfg, conns |-> LET cs == TLCEval(conns) IN [c \in 1..Len(cs) |-> [cs[c] EXCEPT !.rem = Rem(cfg.lis[cs[c].l], c)]], steps |-> steps]

RECURSIVE SeqsUpTo(_, _), Pow(_, _)
Flat(qq) == FoldLeft(LAMBDA a, b : a \o b, <<>>, qq)
Pow(A, k) == IF k = 0 THEN {<<>>} ELSE {Append(q, a) : q \in Pow(A, k - 1), a \in A}
SeqsUpTo(A, k) == UNION {Pow(A, j) : j \in 0..k}
(* the items of a set, k per group *)
Groups_(A, k) == LET q == SetToSeq(A)
                     m == (Len(q) + k - 1) \div k IN
                 {SubSeq(q, (j - 1) * k + 1, IF j * k < Len(q) THEN j * k ELSE Len(q)) : j \in 1..m}

-----------------------------------------------------------------------------
(* xreg: every program over {use/unuse a, use/unuse b, use/unuse both, a global, an id handler, a URL handler}, one message to every handler *)

RegSeqs == IF Q THEN SeqsUpTo({"a", "i"}, 9) \cup SeqsUpTo({"a", "u"}, 7) \cup SeqsUpTo({"a", "b", "i"}, 6) \cup SeqsUpTo({"a", "b", "i", "u"}, 5)
           ELSE SeqsUpTo({"a", "i"}, 12) \cup SeqsUpTo({"a", "u"}, 9) \cup SeqsUpTo({"a", "b", "i"}, 8) \cup SeqsUpTo({"a", "b", "ab", "g", "i", "u"}, 6)
Pos(q, x) == Min({j \in 1..Len(q) : q[j] = x} \cup {Len(q) + 1})
Sym2Call(p, x, r) ==
  LET k == Len(p) + 1 IN
  CASE x \in {"a", "b"} -> PCALL(IF x \in r.used THEN "unuse" ELSE "use", 0, "", <<x>>, 0)
    [] x = "ab" -> PCALL(IF {"a", "b"} \cap r.used # {} THEN "unuse" ELSE "use", 0, "", IF r.used \cap {"a", "b"} = {} THEN <<"a", "b">> ELSE SetToSeq(r.used \cap {"a", "b"}), 0)
    [] x = "g" -> PCALL("global", 0, "", <<>>, 1)
    [] x = "i" -> PCALL("add", k, "", <<>>, k % 2)
    [] x = "u" -> PCALL("any", 0, "/p" \o ToString(k), <<>>, k % 2)
ProgOf(q, p, r) == FoldLeft(LAMBDA a, x : LET c == TLCEval(Sym2Call(a[1], x, a[2])) IN TLCEval(<<Append(a[1], c), RegCall(a[2], c, Len(a[1]) + 1, CFG0)>>), <<p, r>>, q)[1]
MsgsOf(p) == LET q == SelectSeq(p, LAMBDA c : c.op \in {"add", "any"}) IN
             [j \in 1..Len(q) |-> IF q[j].op = "add" THEN [U0 EXCEPT !.id = q[j].id] ELSE [U0 EXCEPT !.rt = "url", !.u = q[j].u]]
XReg ==
  {LET p == ProgOf(q, <<>>, RegInit)
       us == MsgsOf(p) IN
   SC([CFG0 EXCEPT !.prog = p], <<[C0 EXCEPT !.units = us]>>, D(1) \o PU(1, Len(us)) \o S)
   : q \in {q \in RegSeqs : {"i", "u"} \cap {q[j] : j \in 1..Len(q)} # {} /\ ("b" \in {q[j] : j \in 1..Len(q)} => Pos(q, "a") < Pos(q, "b") \/ Pos(q, "ab") < Pos(q, "b"))}}   \* the names of the keys do not matter
  \cup   \* and long ones: a period that is over, a later one, one that never ends, with many handlers in each
  {LET R_(kk) == [j \in 1..kk |-> "i"]
       p == TLCEval(ProgOf(R_(k) \o <<"a">> \o R_(k) \o <<"a", "b">> \o R_(k) \o <<"a">> \o R_(k) \o <<"u">>, <<>>, RegInit))
       ms == TLCEval(MsgsOf(p))
       us == SelectSeq([j \in 1..Len(ms) |-> [ms[j] EXCEPT !.bl = IF k < 30 \/ j % (k \div 4) \in {0, 1} THEN 3 ELSE -1]], LAMBDA u : u.bl > 0) IN
   SC([CFG0 EXCEPT !.prog = p], <<[C0 EXCEPT !.units = us]>>, D(1) \o PU(1, Len(us)) \o S) : k \in IF Q THEN {12, 40, 80} ELSE {12, 40, 80, 260}}
  \cup   \* and every refused call after short programs
  {LET p == Append(ProgOf(q, <<>>, RegInit), c) IN SC([CFG0 EXCEPT !.prog = p], <<>>, <<>>)
   : q \in SeqsUpTo({"a", "b", "i", "u"}, 3), c \in {PCALL(op, 0, "", <<k>>, 0) : op \in {"use", "unuse"}, k \in {"a", "b"}} \cup {PCALL("add", j, "", <<>>, 0) : j \in 1..3} \cup {PCALL("any", 0, "/p" \o ToString(j), <<>>, 0) : j \in 1..3}
              \cup {PCALL(op, 0, "", <<"a", "a">>, 0) : op \in {"use", "unuse"}} \cup {PCALL("use", 0, "", <<"c", "a">>, 0), PCALL("unuse", 0, "", <<"a", "c">>, 0)}}

-----------------------------------------------------------------------------
(* xchain: every assignment of {nothing, Next, Abort, both in both orders, Next twice, panic} to the links of a chain of four; id-routed, URL-routed, piped, by OnMessage, raw, over udp *)

Beh == {<<>>, <<"next">>, <<"abort">>, <<"next", "abort">>, <<"abort", "next">>, <<"next", "next">>, <<"panic">>, <<"next", "panic">>}
BehH == {<<>>, <<"next">>, <<"abort">>}
At(link, q) == [j \in 1..Len(q) |-> ACT(link, q[j], 0, "", 0)]
ChainPats == {At("g1", x) \o At("ka", y) \o At("s1", z) \o At("h", w) : x \in Beh, y \in IF Q THEN Beh \ {<<"next", "next">>, <<"next", "panic">>} ELSE Beh, z \in Beh, w \in BehH}
EveryPats == {At("g1", x) \o At("ka", y) \o At("h", w) : x \in Beh, y \in Beh, w \in BehH}
CHPROG == <<PCALL("global", 0, "", <<>>, 1), PCALL("use", 0, "", <<"a">>, 0), PCALL("add", 1, "", <<>>, 1), PCALL("any", 0, "/x", <<>>, 1)>>
XChain ==
  {SC([CFG0 EXCEPT !.prog = CHPROG, !.lis = <<IF k = "udp" THEN LUDP ELSE LTCP>>, !.onmsg = (k = "om")],
      <<[C0 EXCEPT !.units = [j \in 1..Len(g) |-> [U0 EXCEPT !.do = g[j], !.rt = IF k = "url" THEN "url" ELSE "none", !.u = IF k = "url" THEN "/x" ELSE "", !.pipe = IF k = "pipe" /\ j = 1 THEN Len(g) ELSE 0]]]>>,
      D(1) \o PU(1, Len(g)) \o S)
   : g \in Groups_(ChainPats, 12), k \in IF Q THEN {"id", "pipe"} ELSE {"id", "url", "pipe", "om", "udp"}}
  \cup {SC([CFG0 EXCEPT !.prog = CHPROG, !.lis = <<LRAW>>], [j \in 1..Len(g) |-> [C0 EXCEPT !.raw = g[j]]], Flat([j \in 1..Len(g) |-> D(j)]) \o S) : g \in Groups_(EveryPats, 6)}
  \cup   \* long chains, aborted nowhere or somewhere, some links calling Next
  {LET lk(x) == IF x = 0 THEN "h" ELSE "g" \o ToString(x)
       us == [j \in 1..3 |-> [U0 EXCEPT !.pipe = IF pp /\ j = 1 THEN 3 ELSE 0, !.do = (IF j = 2 THEN <<>> ELSE <<ACT(lk(IF ab < k THEN ab ELSE k), IF j = 1 THEN "abort" ELSE "panic", 0, "", 0)>>) \o (IF nx THEN <<ACT("g1", "next", 0, "", 0), ACT(lk(k), "next", 0, "", 0)>> ELSE <<>>)]] IN
   SC([CFG0 EXCEPT !.prog = <<PCALL("global", 0, "", <<>>, k), ADDH(1)>>, !.lis = <<IF pp THEN LTCP ELSE LUDP>>], <<[C0 EXCEPT !.units = us]>>, D(1) \o PU(1, 3) \o S)
   : k \in IF Q THEN {31, 33, 62, 63, 64, 65, 127, 129, 258} ELSE {15, 16, 17, 500} \cup 30..34 \cup 60..67 \cup 125..131 \cup 252..259, ab \in {1, 2, 40, 1000}, nx \in BOOLEAN, pp \in BOOLEAN}

-----------------------------------------------------------------------------
(* xstream: every way the server can read a short stream of three messages in pieces (two cut points), with and without a pipe, ended by EOF with or after the data *)

TINY == [U0 EXCEPT !.rt = "hl0", !.bl = -1]
XStream ==
  {SC(CFG0, <<[C0 EXCEPT !.units = <<[TINY EXCEPT !.rt = "none", !.pipe = p], [TINY EXCEPT !.bl = 1], TINY>>, !.rs = <<a, b, 10000>>, !.eof = (f = "both")]>>,
      D(1) \o <<[ST0 EXCEPT !.op = "push", !.c = 1, !.u = 3, !.fin = (f # "")]>> \o S)
   : p \in {0, 2}, a \in 1..IF Q THEN 40 ELSE 60, b \in IF Q THEN {1, 2, 3, 4, 5, 12, 15, 16, 17, 20, 33} ELSE 1..60, f \in {"", "fin", "both"}}
  \cup   \* cut off after any byte
  {SC(CFG0, <<[C0 EXCEPT !.units = <<[TINY EXCEPT !.rt = "none", !.pipe = p], [TINY EXCEPT !.bl = 1], TINY>>, !.rs = r]>>,
      D(1) \o <<[ST0 EXCEPT !.op = "push", !.c = 1, !.u = k, !.f = f]>> \o S \o OP(e, 1) \o S)
   : p \in {0, 2, 3}, k \in 0..2, f \in {5 * j : j \in 0..19} \cup {99}, e \in {"fin", "shut", "rst"}, r \in {<<>>, <<1>>}}

-----------------------------------------------------------------------------
(* xmax: every limit around every length, in every position, piped or not *)

XMax ==
  {LET q == [j \in 1..4 |-> IF j = pos THEN [TINY EXCEPT !.bl = b, !.rt = "none"] ELSE [TINY EXCEPT !.pipe = IF j = pp THEN 3 ELSE 0]] IN
   SC([CFG0 EXCEPT !.max = mx], <<[C0 EXCEPT !.units = q], [C0 EXCEPT !.units = <<TINY>>]>>, D(1) \o D(2) \o PU(1, 4) \o S \o PU(2, 1) \o S)
   : mx \in IF Q THEN {-1, 0, 12, 30, 31} ELSE {-1, 0, 1, 11, 12, 13} \cup 24..36, b \in IF Q THEN {-1, 0, 1, 4, 5, 6, 9, 15} ELSE {-1} \cup 0..20, pos \in 1..4, pp \in {0, 1, 2}}
  \cup
  {SC([CFG0 EXCEPT !.max = 60], <<[C0 EXCEPT !.units = [j \in 1..3 |-> IF j = pos THEN [U0 EXCEPT !.bl = b] ELSE [U0 EXCEPT !.pipe = IF j = pp THEN 3 ELSE 0]]]>>, D(1) \o PU(1, 3) \o S)
   : b \in 0..60, pos \in 1..3, pp \in IF Q THEN {0} ELSE {0, 1}}
  \cup   \* limits beyond 16 bits
  {SC([CFG0 EXCEPT !.max = mx], <<[C0 EXCEPT !.units = <<[U0 EXCEPT !.bl = mx + b, !.rt = "hl0"], U0>>]>>, D(1) \o PU(1, 2) \o S) : mx \in {32767, 65535, 65536, 70000}, b \in IF Q THEN -33..-29 ELSE -80..5}

-----------------------------------------------------------------------------
(* xudp: datagrams of every length around the buffer size; many datagrams *)
XUdp ==
  {SC([CFG0 EXCEPT !.lis = <<[LUDP EXCEPT !.buf = bf]>>], <<[C0 EXCEPT !.units = <<[U0 EXCEPT !.bl = b, !.rt = rt], [U0 EXCEPT !.bl = b - 1, !.rt = rt]>>], [C0 EXCEPT !.units = <<U0>>]>>, D(1) \o D(2) \o PU(1, 2) \o PU(2, 1) \o S)
   : rt \in {"none", "hl0"}, bf \in {200}, b \in IF Q THEN {140 + 2 * j : j \in 0..30} ELSE 100..220}
  \cup {SC([CFG0 EXCEPT !.lis = <<LUDP>>], <<[C0 EXCEPT !.units = <<[U0 EXCEPT !.bl = b, !.rt = rt]>>], [C0 EXCEPT !.units = <<U0>>]>>, D(1) \o D(2) \o PU(1, 1) \o PU(2, 1) \o S)
   : rt \in {"hl0"}, b \in IF Q THEN {4045 + j : j \in 0..30} ELSE 3990..4130}
  \cup {SC([CFG0 EXCEPT !.lis = <<LUDP>>], [c \in 1..k |-> [C0 EXCEPT !.units = <<[U0 EXCEPT !.do = <<ACT("h", "reply", c, "Reply", 3)>>], U0>>]], Flat([c \in 1..k |-> D(c) \o PU(c, 1)]) \o S \o Flat([c \in 1..k |-> PU(c, 2)]) \o S)
   : k \in {40, 70} \cup IF Q THEN {} ELSE {130, 260}}

-----------------------------------------------------------------------------
(* xcrowd: k handlers of one connection, of one pipe and a connection, or of k connections, all stuck at the same time, then somebody else; or k that panic *)

XCrowd ==
  {LET stuck == <<IF f = "panic" THEN A0("panic") ELSE AN("block", 1)>>
       us == TLCEval([j \in 1..(k + 1) |-> [U0 EXCEPT !.do = IF j <= k THEN stuck ELSE <<>>, !.pipe = IF w = "pipe" /\ j = k THEN 2 ELSE 0]]) IN
   SC([CFG0 EXCEPT !.lis = <<IF w = "udp" THEN LUDP ELSE LTCP>>],
      IF w = "conns" THEN [c \in 1..(k + 1) |-> [C0 EXCEPT !.units = <<us[c], U0>>]] ELSE <<[C0 EXCEPT !.units = us], [C0 EXCEPT !.units = <<U0>>]>>,
      (IF w = "conns" THEN Flat([c \in 1..(k + 1) |-> D(c) \o PU(c, 1)]) \o S \o Flat([c \in 1..(k + 1) |-> PU(c, 2)]) ELSE D(1) \o PU(1, k + 1) \o S \o D(2) \o PU(2, 1)) \o S \o <<[ST0 EXCEPT !.op = "release", !.n = 1]>> \o S)
   : k \in IF Q THEN {33, 65, 129, 257} ELSE {17, 33, 65, 101, 129, 257, 513}, w \in {"one", "pipe", "udp", "conns"}, f \in {"block", "panic"}}

-----------------------------------------------------------------------------
(* xmal: every kind of broken message in every position of a stream, before, after and inside a pipe, and every broken datagram *)

MalK == {"json", "jarr", "hneg", "hbig", "short", "neg", "trunc", "junk", "bbig", "bneg", "pipe0", "pipen", "pipex", "pipet", "pipea", "pipeoff", "stuff"}
XMal ==
  {LET q == [j \in 1..(IF m \in LastOnly THEN pos ELSE 4) |-> IF j = pos THEN [U0 EXCEPT !.mal = m, !.rt = rt, !.u = IF rt = "url" THEN "/x" ELSE ""] ELSE [U0 EXCEPT !.pipe = IF j = pp /\ pp < pos THEN 3 ELSE 0, !.rt = IF j = 3 THEN "url" ELSE "none", !.u = IF j = 3 THEN "/x" ELSE ""]] IN
   SC([CFG0 EXCEPT !.prog = <<ADDH(1), PCALL("any", 0, "/x", <<>>, 0)>>, !.max = mx], <<[C0 EXCEPT !.units = q], [C0 EXCEPT !.units = <<U0, U0>>]>>, D(2) \o PU(2, 1) \o D(1) \o PU(1, Len(q)) \o S \o PU(2, 2) \o S)
   : m \in MalK, pos \in 1..4, pp \in {0, 1, 2}, rt \in IF Q THEN {"none"} ELSE {"none", "url", "hl0"}, mx \in {0, 1000}}
  \cup
  {SC([CFG0 EXCEPT !.lis = <<[LUDP EXCEPT !.buf = bf]>>, !.onmsg = om], <<[C0 EXCEPT !.units = <<U0, [U0 EXCEPT !.mal = m, !.rt = rt, !.bl = IF m = "junk" /\ b < 0 THEN 12 ELSE b], U0>>], [C0 EXCEPT !.units = <<U0>>]>>, D(1) \o PU(1, 3) \o D(2) \o PU(2, 1) \o S)
   : m \in MalK \cup {"", "tail"}, rt \in {"none", "hl0"}, b \in {-1, 0, 40, 180}, bf \in {0, 200}, om \in BOOLEAN}

-----------------------------------------------------------------------------
(* xroute: every routing header with every registered or unregistered target *)

RTS == {"none", "id", "url", "extra", "other", "num", "urlnum", "hl0", "nil", "val", "idu"}
XRoute ==
  {SC([CFG0 EXCEPT !.prog = <<ADDH(1), PCALL("any", 0, "/x", <<>>, 0), ADDH(-7), PCALL("any", 0, "x", <<>>, 0)>>, !.onmsg = om, !.lis = <<l>>],
      <<[C0 EXCEPT !.units = <<x, y, x>>], [C0 EXCEPT !.units = <<y, x>>]>>, D(1) \o PU(1, 3) \o D(2) \o PU(2, 2) \o S)
   : x \in {[U0 EXCEPT !.rt = r, !.u = u, !.id = i] : r \in RTS, u \in {"/x", "x", "/X", "/x/", "", "/none"}, i \in {1, -7, 99}},
     y \in IF Q THEN {U0} ELSE {U0, [U0 EXCEPT !.rt = "url", !.u = "/x"], [U0 EXCEPT !.id = 99]}, om \in IF Q THEN {FALSE} ELSE BOOLEAN, l \in IF Q THEN {LTCP, LUDP} ELSE {LTCP, LUDP, LUNX}}

-----------------------------------------------------------------------------
(* the same things again and again: what must hold for every history has to hold for long ones *)

MTH(j) == <<"Reply", "JSON", "Reply+H", "XML", "YAML", "TOML">>[1 + (j % 6)]
XLong ==   \* many messages on one connection, from one sender of datagrams
  {LET us == TLCEval([j \in 1..k |-> [U0 EXCEPT !.id = IF j % 5 = 4 THEN 99 ELSE 1, !.rt = IF j % 3 = 0 THEN "url" ELSE "none", !.u = IF j % 3 = 0 THEN "/x" ELSE "", !.bl = 2 + (j % 40),
                                               !.do = <<ACT("h", "scon", j, "q1", 0), ACT("h", "reply", j, MTH(j), j % 50)>>]]) IN
   SC([CFG0 EXCEPT !.lis = <<l>>, !.mar = mr, !.prog = <<ADDH(1), PCALL("any", 0, "/x", <<>>, 0)>>], <<[C0 EXCEPT !.units = us], [C0 EXCEPT !.units = <<U0, U0>>]>>,
      D(1) \o D(2) \o PU(2, 1) \o Flat([j \in 1..(k \div nn) |-> PU(1, j * nn) \o S]) \o PU(1, k) \o PU(2, 2) \o S)
   : k \in IF Q THEN {150, 300} ELSE {150, 300, 700, 1100}, nn \in {1, 50}, l \in {LTCP, LUDP}, mr \in {"json"}}
XMany ==   \* many connections, one after the other or all together, online or not
  {LET e(c) == IF w = "fin" THEN OP(<<"fin", "rst", "shut">>[1 + (c % 3)], c) \o S ELSE <<>>
       conns == [c \in 1..k |-> [C0 EXCEPT !.units = <<[U0 EXCEPT !.do = <<ACT("h", "reply", c, "Reply", 9)>>], U0>>, !.oc = <<AS("online", "u" \o ToString(c))>>]] IN
   SC([CFG0 EXCEPT !.pool = o # 0, !.sig = o = 2], conns,
      Flat([c \in 1..k |-> D(c) \o PU(c, 1) \o S \o e(c)]) \o S
      \o (IF w = "fin" THEN <<>> ELSE ACTS(1, AS("lookup", "u" \o ToString(k))) \o ACTS(k, ACT("h", "sendto", 3, "u1", 4)) \o ACTS(2, ACT("h", "sendto", 4, "u" \o ToString(k), 4)) \o S)
      \o (IF w = "all" THEN SRV("restart", TRUE) \o S \o Flat([c \in 1..k |-> PU(c, 2)]) \o S ELSE IF w = "stop" THEN SRV("stop", FALSE) \o S \o Flat([c \in 1..k |-> PU(c, 2)]) \o S ELSE <<>>))
   : k \in IF Q THEN {40, 140} ELSE {40, 140, 300}, w \in {"fin", "all", "stop"}, o \in 0..2}
XCycle ==   \* many stops and starts
  {LET L == Len(ls)
       conns == [c \in 1..(k * L) |-> [C0 EXCEPT !.l = 1 + ((c - 1) % L), !.units = <<U0, U0>>, !.raw = <<AN("rread", 10), AN("rread", 5000)>>]] IN
   SC([CFG0 EXCEPT !.lis = ls, !.sig = sg], conns,
      Flat([j \in 1..k |-> Flat([c \in 1..L |-> D(j * L - L + c) \o PU(j * L - L + c, 1)]) \o S \o (IF w = 1 THEN SRV("restart", all) ELSE SRV("stop", all) \o S \o SRV("start", FALSE)) \o S \o Flat([c \in 1..L |-> PU(j * L - L + c, 2)]) \o S]) \o SRV("stop", TRUE) \o S)
   : k \in IF Q THEN {20} ELSE {20, 60}, w \in 1..2, ls \in {<<LTCP>>, <<LTCP, LUDP, LRAW>>}, all \in BOOLEAN, sg \in BOOLEAN}
XBeats ==   \* many beats, many intervals
  {LET hb == [HB0 EXCEPT !.on = TRUE, !.loss = TRUE] IN
   SC([CFG0 EXCEPT !.hb = hb, !.prog = <<PCALL("hb", 0, "", <<>>, 0), ADDH(1)>>], <<[C0 EXCEPT !.units = [j \in 1..k |-> IF j % nn = 0 THEN [U0 EXCEPT !.id = 1392] ELSE U0]], C0, C0>>,
      D(1) \o D(2) \o S \o Flat([j \in 1..k |-> PU(1, j) \o S \o ADV(v) \o (IF j = k \div 2 THEN D(3) ELSE <<>>)]) \o S \o ADV(180000) \o S)
   : k \in IF Q THEN {130} ELSE {130, 400}, nn \in {1, 2}, v \in {1000, 38000, 70000}}

-----------------------------------------------------------------------------
(* xscope: every pair of writers of the two scopes, the first request going on, panicking, aborting or staying around while the second runs; everything is read everywhere *)

RdAll(link) == <<ACT(link, "greq", 0, "q1", 0), ACT(link, "gcon", 0, "q1", 0), ACT(link, "greq", 0, "q2", 0), ACT(link, "gcon", 0, "q2", 0)>>
Wr(link, k, v) == IF k = "both" THEN <<ACT(link, "sreq", v, "q1", 0), ACT(link, "scon", v + 1, "q1", 0)>> ELSE IF k = "" THEN <<>> ELSE <<ACT(link, k, v, "q1", 0)>>
XScope ==
  {LET first == RdAll("g1") \o Wr(l1, w1, 10) \o RdAll(l1) \o (IF e = "" THEN <<>> ELSE <<ACT(l1, e, 1, "", 0)>>) \o RdAll("h")
       second == RdAll("g1") \o Wr("g1", w2, 20) \o Wr("h", w2, 30) \o RdAll("h")
       url == [U0 EXCEPT !.rt = IF k = "url" THEN "url" ELSE "none", !.u = IF k = "url" THEN "/x" ELSE ""]
       us == <<[url EXCEPT !.do = first, !.pipe = IF k = "pipe" THEN 2 ELSE 0], [url EXCEPT !.do = second], [url EXCEPT !.do = RdAll("g1") \o RdAll("h")]>> IN
   SC([CFG0 EXCEPT !.prog = <<PCALL("global", 0, "", <<>>, 1), ADDH(1), PCALL("any", 0, "/x", <<>>, 0)>>, !.lis = <<IF k = "udp" THEN LUDP ELSE LTCP>>, !.onmsg = (k = "om")],
      <<[C0 EXCEPT !.units = us, !.oc = IF o THEN <<ACT("h", "scon", 5, "q2", 0)>> ELSE <<>>, !.cl = <<ACT("h", "gcon", 0, "q1", 0), ACT("h", "gcon", 0, "q2", 0)>>], [C0 EXCEPT !.units = <<us[3], us[2]>>]>>,
      D(1) \o D(2) \o S \o (IF k = "pipe" THEN PU(1, 2) ELSE PU(1, 1) \o S \o PU(1, 2)) \o S \o PU(2, 2) \o S \o <<[ST0 EXCEPT !.op = "release", !.n = 1]>> \o S \o PU(1, 3) \o S \o OP("fin", 1) \o S)
   : l1 \in {"g1", "h"}, w1 \in {"sreq", "scon", "both"}, w2 \in {"", "sreq", "scon"}, e \in {"", "panic", "abort", "block"}, k \in {"id", "url", "om", "udp", "pipe"}, o \in IF Q THEN {TRUE} ELSE BOOLEAN}

-----------------------------------------------------------------------------
(* xraw: long raw streams in both directions, several connections at a time, under the options, ended in every way *)

XRaw ==
  {SC([CFG0 EXCEPT !.lis = <<LRAW>>, !.max = mx, !.pool = o = 1, !.sig = o = 1, !.prog = <<PCALL("global", 0, "", <<>>, 0), PCALL("use", 0, "", <<"a">>, 0), ADDH(1)>>],
      <<[C0 EXCEPT !.units = <<[U0 EXCEPT !.bl = x], U0, [U0 EXCEPT !.bl = x]>>,
                   !.raw = <<ACT("h", "rread", 40, "", 7), ACT("h", "rwritew", 5, "", y), ACT("h", "rread", x, "", 65536), ACT("h", "rwrite", 5, "", 9), ACT("h", "rread", 100000000, "", 40000), ACT("h", "rwritew", 5, "", 3)>>],
        [C0 EXCEPT !.units = <<U0, [U0 EXCEPT !.bl = y], U0>>, !.raw = <<ACT("h", "rwrite", 5, "", y), ACT("h", "rread", 100000000, "", 65536)>>]>>,
      D(1) \o PU(1, 1) \o D(2) \o PU(2, 1) \o S \o PU(2, 2) \o PU(1, 2) \o S \o PU(1, 3) \o PU(2, 3) \o S \o OP(e, 1) \o S \o OP("shut", 2) \o S)
   : x \in IF Q THEN {70, 70000, 1200000} ELSE {70, 4096, 70000, 1200000, 5000000}, y \in IF Q THEN {70, 140000} ELSE {70, 70000, 140000, 1200000}, mx \in {0, 100}, o \in {0, 1}, e \in {"fin", "shut", "rst"}}

-----------------------------------------------------------------------------
(* xpool: every short history of online, offline, close and client disconnects over connections and names, at rest after each operation or all racing *)

PoolAct(NCn) == {<<c, AS("online", nm)>> : c \in 1..NCn, nm \in {"u1", "u2"}} \cup {<<c, A0("offline")>> : c \in 1..NCn} \cup {<<c, A0("close")>> : c \in 1..NCn} \cup {<<c, A0("fin")>> : c \in 1..NCn}
PoolStep(x, g) == IF x[2].a = "fin" THEN OP("fin", x[1]) ELSE IF g THEN ACTG(x[1], x[2]) ELSE ACTS(x[1], x[2])
OwnAct == {<<c, AS(a, nm)>> : c \in 1..2, a \in {"mon", "moff"}, nm \in {"u1", "u2"}} \cup {<<1, A0("close")>>}
XPool ==
  {SC([CFG0 EXCEPT !.pool = TRUE], [c \in 1..2 |-> C0], D(1) \o D(2) \o S \o Flat([j \in 1..Len(h) |-> PoolStep(h[j], g) \o (IF g THEN <<>> ELSE S)]) \o S)
   : h \in IF Q THEN Pow(PoolAct(2), 3) ELSE Pow(PoolAct(2), 4), g \in IF Q THEN {FALSE} ELSE {FALSE}}
  \cup {SC([CFG0 EXCEPT !.pool = TRUE, !.y = yy], [c \in 1..2 |-> C0], D(1) \o D(2) \o S \o ACTS(1, AS("online", "u1")) \o Flat([j \in 1..Len(h) |-> PoolStep(h[j], TRUE)]) \o S \o ACTS(2, AS("lookup", "u1")) \o S)
   : h \in IF Q THEN Pow(PoolAct(2), 2) ELSE Pow(PoolAct(2), 3), yy \in IF Q THEN {1, 5} ELSE {1, 2, 5, 6}}
  \cup   \* a pool of the application's own
  {SC([CFG0 EXCEPT !.y = yy], [c \in 1..2 |-> C0], D(1) \o D(2) \o S \o Flat([j \in 1..Len(h) |-> PoolStep(h[j], yy > 0) \o (IF yy > 0 THEN <<>> ELSE S)]) \o S \o ACTS(1, AS("mget", "u1")) \o ACTS(2, AS("mget", "u2")) \o S)
   : h \in UNION {Pow(OwnAct, k) : k \in 1..(IF Q THEN 2 ELSE 3)}, yy \in {0, 1, 5}}

(* xsend: every short history, then everybody sends to every name *)
XSend ==
  {SC([CFG0 EXCEPT !.pool = TRUE], [c \in 1..3 |-> C0],
      D(1) \o D(2) \o D(3) \o S \o Flat([j \in 1..Len(h) |-> PoolStep(h[j], FALSE) \o S]) \o
      Flat([c \in 1..3 |-> ACTS(c, ACT("h", "sendto", c, "u1", 4)) \o ACTS(c, ACT("h", "sendto", c + 10, "u2", 40)) \o S]))
   : h \in SeqsUpTo(PoolAct(3), IF Q THEN 2 ELSE 3)}

-----------------------------------------------------------------------------
(* xstop: every sequence of Stop, Start, Restart up to a length, with traffic in between, on one listener or one of each kind *)

StopOps == {SRV("stop", FALSE), SRV("stop", TRUE), SRV("start", FALSE), SRV("restart", FALSE), SRV("restart", TRUE)}
AGAIN(l) == <<[ST0 EXCEPT !.op = "again", !.u = l]>>
(* xbusy: a serving call for each address that is already served, anywhere in a short sequence of Stop, Start and Restart *)
XBusy ==
  {LET L == Len(ls)
       k == Len(h)
       nconn == L * (k + 1)
       conns == [c \in 1..nconn |-> [C0 EXCEPT !.l = 1 + ((c - 1) % L), !.units = [j \in 1..(k + 1) |-> U0], !.oc = <<AS("online", "u" \o ToString(c))>>, !.raw = <<AN("rread", 10), AN("rread", 5000)>>]]
       traffic(j) == Flat([c \in 1..(L * j) |-> (IF c > L * (j - 1) THEN D(c) ELSE <<>>) \o PU(c, j)]) \o S IN
   SC([CFG0 EXCEPT !.lis = ls, !.pool = pl, !.sig = sg, !.tls = tl], conns, traffic(1) \o Flat([j \in 1..k |-> (IF a = j THEN AGAIN(1 + (j % L)) \o S ELSE <<>>) \o h[j] \o S \o traffic(j + 1)]))
   : h \in {<<x, y>> : x \in {S, SRV("restart", FALSE), SRV("restart", TRUE), SRV("stop", TRUE) \o S \o SRV("start", FALSE)}, y \in {SRV("stop", FALSE), SRV("stop", TRUE), SRV("restart", FALSE)}},
     a \in 1..2, ls \in {<<LTCP>>, <<LUNX>>, <<LTCP, LUDP, LRAW>>, <<LUDP, LTCP, LUNX>>}, pl \in BOOLEAN, sg \in BOOLEAN, tl \in {FALSE}}

XStop ==
  {LET L == Len(ls)
       k == Len(h)
       nconn == L * (k + 1)
       conns == [c \in 1..nconn |-> [C0 EXCEPT !.l = 1 + ((c - 1) % L), !.units = [j \in 1..(k + 1) |-> U0], !.oc = <<AS("online", "u" \o ToString(c))>>, !.raw = <<AN("rread", 10), AN("rread", 5000)>>]]
       traffic(j) == Flat([c \in 1..(L * j) |-> (IF c > L * (j - 1) THEN D(c) ELSE <<>>) \o PU(c, j)]) \o S IN
   SC([CFG0 EXCEPT !.lis = ls, !.pool = pl, !.sig = sg], conns, traffic(1) \o Flat([j \in 1..k |-> h[j] \o S \o traffic(j + 1)]))
   : h \in IF Q THEN SeqsUpTo(StopOps, 2) \cup {<<SRV("stop", a), SRV("start", FALSE), x>> : a \in BOOLEAN, x \in StopOps} ELSE SeqsUpTo(StopOps, 4),
     ls \in {<<LTCP>>, <<LTCP, LUDP, LRAW>>, <<LUDP, LTCP, LUNX>>}, pl \in BOOLEAN, sg \in BOOLEAN}

-----------------------------------------------------------------------------
(* xhb: every pattern of beats over a number of ticks, from the client, from the handler's context, renumbered, rewritten or through middlewares *)

HBKinds == {"plain", "renum", "rewr", "thru", "act", "raw"}
XHb ==
  {LET hb == [HB0 EXCEPT !.on = TRUE, !.loss = TRUE, !.id = IF k = "renum" THEN 77 ELSE 1392, !.thru = (k = "thru")]
       nb == Cardinality({j \in 1..Len(b) : b[j] = 1})
       hid == IF k = "rewr" THEN 78 ELSE hb.id
       prog == <<PCALL("global", 0, "", <<>>, 1), PCALL("hb", 0, "", <<>>, 0)>> \o (IF k = "rewr" THEN <<PCALL("rwhb", 78, "", <<>>, 0)>> ELSE <<>>) \o <<ADDH(1)>>
       us == [j \in 1..Len(b) |-> IF b[j] = 1 THEN [U0 EXCEPT !.id = hid, !.do = IF k = "rewr" THEN <<A0("beat")>> ELSE <<>>] ELSE U0]
       beat(j) == IF k \in {"act", "raw"} THEN (IF b[j] = 1 THEN ACTS(1, A0("beat")) ELSE <<>>) ELSE IF b[j] = 0 THEN (IF j % 2 = 1 THEN PU(1, j) ELSE <<>>) ELSE PU(1, j) IN
   SC([CFG0 EXCEPT !.hb = hb, !.prog = prog, !.lis = IF k = "raw" THEN <<LRAW>> ELSE <<LTCP>>], <<[C0 EXCEPT !.units = us, !.raw = <<AN("rread", 5000)>>], [C0 EXCEPT !.raw = <<AN("rread", 5000)>>]>>,
      D(1) \o D(2) \o S \o Flat([j \in 1..Len(b) |-> beat(j) \o ADV(38000)]) \o S)
   : b \in Pow({0, 1}, IF Q THEN 7 ELSE 9), k \in HBKinds}

(* xauth: every sequence of pass, deny and nothing over a number of ticks, from a handler or from outside, on one connection while another does nothing *)
XAuth ==
  {LET au == [AU0 EXCEPT !.on = TRUE, !.thru = th]
       us == [j \in 1..Len(b) |-> [U0 EXCEPT !.id = IF b[j] = "" THEN 1 ELSE 1393, !.do = IF b[j] = "" THEN <<>> ELSE <<A0(b[j])>>]]
       ev(j) == IF k = "act" THEN (IF b[j] = "" THEN <<>> ELSE ACTS(1, A0(b[j]))) ELSE PU(1, j) IN
   SC([CFG0 EXCEPT !.auth = au, !.prog = <<PCALL("global", 0, "", <<>>, 1), PCALL("auth", 0, "", <<>>, 0), ADDH(1)>>], <<[C0 EXCEPT !.units = us], [C0 EXCEPT !.units = <<U0>>]>>,
      D(1) \o D(2) \o S \o PU(2, 1) \o Flat([j \in 1..Len(b) |-> ev(j) \o (IF st = 1 THEN S ELSE <<>>) \o ADV(23000)]) \o S)
   : b \in Pow({"", "pass", "deny"}, IF Q THEN 4 ELSE 5), k \in {"act", "msg"}, th \in IF Q THEN {FALSE} ELSE BOOLEAN, st \in {0, 1}}

(* xdl: every combination of server deadlines with one deadline set on the context, and traffic before and after *)
DLS == {[dl |-> a, rdl |-> b, wdl |-> c] : a \in {0, 60000}, b \in {0, 40000}, c \in {0, 40000}}
XDl ==
  {SC([CFG0 EXCEPT !.dl = d.dl, !.rdl = d.rdl, !.wdl = d.wdl, !.lis = <<l>>],
      <<[C0 EXCEPT !.units = [j \in 1..4 |-> [U0 EXCEPT !.do = <<ACT("h", "reply", 5, "Reply", 9)>>]], !.raw = <<AN("rread", 100000)>>, !.oc = IF at = 0 THEN <<AN(k, v)>> ELSE <<>>]>>,
      D(1) \o S \o Flat([j \in 1..4 |-> PU(1, j) \o S \o (IF at = j THEN S \o ACTS(1, AN(k, v)) \o S ELSE <<>>) \o ADV(24000) \o ACTS(1, ACT("h", "reply", j, "Reply", 9)) \o S]))
   : d \in DLS, k \in {"dl", "rdl", "wdl"}, v \in IF Q THEN {-1, -20000, 30000} ELSE {-1, -20000, 20000, 30000, 100000}, at \in IF Q THEN {0, 1, 9} ELSE {0, 1, 2, 9}, l \in IF Q THEN {LTCP} ELSE {LTCP, LRAW}}
  \cup   \* a deadline that cuts a reply in half, others waiting behind it or coming later
  {SC([CFG0 EXCEPT !.wdl = IF k = 1 THEN 20000 ELSE 0, !.dl = IF k = 2 THEN 20000 ELSE 0],
      <<[C0 EXCEPT !.win = w, !.units = <<[U0 EXCEPT !.do = <<ACT("h", "reply", 5, "Reply", x)>>], [U0 EXCEPT !.do = <<ACT("h", "reply", 6, "JSON", 9)>>], [U0 EXCEPT !.do = <<ACT("h", "reply", 7, "Reply", 9)>>]>>], C0>>,
      D(1) \o D(2) \o S \o (IF k = 3 THEN ACTS(1, AN("wdl", 20000)) ELSE <<>>) \o PU(1, 1) \o S \o (IF b THEN PU(1, 2) \o S ELSE <<>>) \o ADV(24000) \o S \o ACTS(1, AN("dl", -1)) \o S
      \o (IF b THEN <<>> ELSE PU(1, 2) \o S) \o OP("open", 1) \o S \o PU(1, 3) \o S \o ACTS(2, ACT("h", "tocon", 8, "", 1)) \o S)
   : w \in {1, 30, 60}, x \in {0, 9, 50, 300}, b \in BOOLEAN, k \in 1..3}

(* xlife: every pair of causes of a connection's end, at rest in between or racing, under the options *)
EndOps == {"fin", "shut", "rst", "bad", "hclose", "aclose", "deny", "hb", "stopall", "panic"}
EndStep(x) == CASE x \in {"fin", "shut", "rst"} -> OP(x, 1)
                [] x = "bad" -> PU(1, 4)
                [] x = "hclose" -> PU(1, 2)
                [] x = "panic" -> PU(1, 3)
                [] x = "aclose" -> ACTS(1, A0("close"))
                [] x = "deny" -> ACTS(1, A0("deny"))
                [] x = "hb" -> ADV(160000)
                [] x = "stopall" -> SRV("stop", TRUE)
                [] OTHER -> <<>>
XLife ==
  {SC([CFG0 EXCEPT !.pool = pl, !.sig = sg, !.hb = [HB0 EXCEPT !.on = hb, !.loss = TRUE], !.auth = [AU0 EXCEPT !.on = (x = "deny" \/ y = "deny"), !.dl = 500000], !.y = IF g THEN 0 ELSE 1,
                  !.prog = (IF hb THEN <<PCALL("hb", 0, "", <<>>, 0)>> ELSE <<>>) \o (IF x = "deny" \/ y = "deny" THEN <<PCALL("auth", 0, "", <<>>, 0)>> ELSE <<>>) \o <<ADDH(1)>>],
      <<[C0 EXCEPT !.units = <<U0, [U0 EXCEPT !.do = <<A0("close")>>], [U0 EXCEPT !.do = <<A0("panic")>>], [U0 EXCEPT !.mal = "neg"]>>, !.oc = <<AS("online", "u1")>>, !.cl = <<AS("lookup", "u1")>>],
        [C0 EXCEPT !.units = <<U0>>]>>,
      D(1) \o D(2) \o PU(1, 1) \o S \o EndStep(x) \o (IF g THEN S ELSE <<>>) \o EndStep(y) \o S \o PU(2, 1) \o PU(1, 4) \o S)
   : x \in EndOps, y \in EndOps \cup {"none"}, g \in BOOLEAN, pl \in IF Q THEN {TRUE} ELSE BOOLEAN, sg \in BOOLEAN, hb \in BOOLEAN}

(* xpipe: every declared pipe length against every number of messages that follow, with one that fails, aborts, is slow or is unknown in any place *)
XPipe ==
  {LET act == CASE f = "panic" -> <<A0("panic")>> [] f = "abort" -> <<ACT("g1", "abort", 0, "", 0)>> [] f = "slow" -> <<AN("sleep", 30000)>> [] f = "stuck" -> <<AN("block", 1)>> [] OTHER -> <<>>
       us == [j \in 1..k |-> [U0 EXCEPT !.pipe = IF j = 1 THEN p ELSE 0, !.do = IF j = pos THEN act ELSE <<>>, !.id = IF j = pos /\ f = "unknown" THEN 99 ELSE 1,
                                        !.mal = IF j = pos /\ f = "json" /\ pos > 1 THEN "json" ELSE ""]] IN
   SC([CFG0 EXCEPT !.prog = <<PCALL("global", 0, "", <<>>, 1), ADDH(1)>>], <<[C0 EXCEPT !.units = us], [C0 EXCEPT !.units = <<U0>>]>>, D(1) \o PU(1, k) \o S \o D(2) \o PU(2, 1) \o S \o (IF e THEN OP("fin", 1) \o S ELSE <<>>) \o <<[ST0 EXCEPT !.op = "release", !.n = 1]>> \o S)
   : p \in 0..5, k \in 1..IF Q THEN 5 ELSE 6, pos \in 1..4, f \in {"", "panic", "abort", "slow", "stuck", "unknown", "json"}, e \in BOOLEAN}
  \cup   \* long pipes, complete or cut off by the end of the stream
  {SC([CFG0 EXCEPT !.prog = <<PCALL("global", 0, "", <<>>, 1), ADDH(1)>>], <<[C0 EXCEPT !.units = [j \in 1..(p + x) |-> [U0 EXCEPT !.pipe = IF j = 1 THEN p ELSE 0, !.do = IF j = p - 1 /\ f = "panic" THEN <<A0("panic")>> ELSE IF j = 1 /\ f = "stuck" THEN <<AN("block", 1)>> ELSE <<>>]]]>>,
      D(1) \o PU(1, p + x) \o S \o OP("fin", 1) \o S \o <<[ST0 EXCEPT !.op = "release", !.n = 1]>> \o S)
   : p \in IF Q THEN {9, 10, 11, 31, 33, 64, 65, 99, 100, 101, 130} ELSE 6..70 \cup 95..105 \cup 125..135 \cup 252..260, x \in {-1, 0, 1}, f \in {"", "panic", "stuck"}}

-----------------------------------------------------------------------------
XSet == CASE FAM = "xreg" -> XReg
          [] FAM = "xchain" -> XChain
          [] FAM = "xstream" -> XStream
          [] FAM = "xmax" -> XMax
          [] FAM = "xudp" -> XUdp
          [] FAM = "xcrowd" -> XCrowd
          [] FAM = "xmal" -> XMal
          [] FAM = "xroute" -> XRoute
          [] FAM = "xraw" -> XRaw
          [] FAM = "xscope" -> XScope
          [] FAM = "xlong" -> XLong
          [] FAM = "xmany" -> XMany
          [] FAM = "xcycle" -> XCycle
          [] FAM = "xbeats" -> XBeats
          [] FAM = "xpool" -> XPool
          [] FAM = "xsend" -> XSend
          [] FAM = "xstop" -> XStop
          [] FAM = "xbusy" -> XBusy
          [] FAM = "xhb" -> XHb
          [] FAM = "xauth" -> XAuth
          [] FAM = "xdl" -> XDl
          [] FAM = "xlife" -> XLife
          [] FAM = "xpipe" -> XPipe

Varied == {"xudp", "xroute", "xsend", "xpipe", "xmax", "xstream", "xmal", "xstop", "xbusy", "xchain"}     \* the schedule varies along the enumeration
XEnum == LET q == SetToSeq(XSet) IN
         [j \in 1..Len(q) |-> [id |-> j, fam |-> FAM, seed |-> j % 30000, cfg |-> [q[j].cfg EXCEPT !.y = IF FAM \in Varied THEN j % 7 ELSE @], conns |-> q[j].conns, steps |-> q[j].steps]]

XInit == n = 0 /\ out = <<>> /\ scn = <<>> /\ env = <<>>
XNext == n = 0 /\ n' = COUNT /\ \E e \in {XEnum} : out' = e /\ UNCHANGED <<scn, env>>
XWritten == n = COUNT => ndJsonSerialize(OUT, out)
=============================================================================
