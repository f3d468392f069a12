--------------------------------- MODULE Env ---------------------------------
(* The environment of a tcpx server: the configurations, registrations, clients, bytes, handlers and operator     *)
(* actions it can be confronted with.  A behaviour of this module is one scenario; TLC's simulator generates       *)
(* scenarios (family by family), the harness replays each of them into the real code, and TcpxTrace.tla checks     *)
(* what the real code did.                                                                                         *)
EXTENDS Registration, Json, IOUtils

FAM   == IOEnv.FAM
COUNT == atoi(IOEnv.COUNT)
BASE  == atoi(IOEnv.BASE)
OUT   == IOEnv.OUT

R(S)  == RandomElement(S)
Pct(n) == R(1..100) <= n
W(q)  == q[R(1..Len(q))]
RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)

-----------------------------------------------------------------------------
(* Parameters of a family *)

Base == [nc |-> 2, nu |-> 3, modes |-> <<"pack">>, nets |-> <<"tcp", "tcp", "tcp", "tcp4", "tcp6", "unix", "unix", "unixpacket">>, tls |-> 4, nlis |-> 1,
         mars |-> <<"json", "json", "json", "xml", "yaml", "toml", "protobuf">>,
         prog |-> 4, badprog |-> 0, onmsg |-> 5, max |-> 5, pool |-> 12, sig |-> 8, occ |-> 60, ocl |-> 60, hb |-> 8, auth |-> 6, dl |-> 3, hbp |-> 45,
         sizes |-> {2000, 5000, 20000, 70000}, crowd |-> 0, share |-> 30,
         past |-> {}, pls |-> <<1, 2, 2, 3, 4>>, mal |-> 0, malk |-> <<"json">>, pipe |-> 0, big |-> 5, rts |-> <<"none", "none", "id", "url", "extra", "hl0", "nil">>,
         unreg |-> 10, acts |-> <<"next">>, na |-> 3, na0 |-> 0, oc |-> <<>>, cl |-> <<>>, ls |-> <<>>, raw |-> <<>>, win |-> 2, eof |-> 30, ipv6 |-> 0, dup |-> 0,
         st |-> <<"push", "push", "push", "settle", "yield">>, sacts |-> <<>>, ns |-> 10, adv |-> {1000, 50000}, ys |-> {0, 1, 2, 3, 4, 5, 6}, sameclose |-> 0]

RECURSIVE Fam(_)
Fam(f) ==
  CASE f = "route" -> [Base EXCEPT !.nc = 3, !.nu = 4, !.tls = 25, !.prog = 8, !.onmsg = 8, !.acts = <<"next", "bind", "bind", "reply", "ip">>, !.na = 2, !.big = 12,
                          !.rts = <<"none", "id", "url", "url", "extra", "other", "num", "urlnum", "hl0", "nil", "val", "idu">>, !.unreg = 20, !.st = <<"push", "push", "push", "settle", "yield", "fin", "shut">>]
    [] f = "stream" -> [Base EXCEPT !.nc = 2, !.nu = 6, !.tls = 40, !.prog = 1, !.onmsg = 20, !.acts = <<"bind">>, !.na = 1, !.big = 40, !.eof = 60, !.pipe = 10,
                          !.st = <<"push", "push", "push", "push", "settle", "fin", "yield">>]
    [] f = "reg" -> [Base EXCEPT !.nc = 1, !.nu = 5, !.prog = 18, !.badprog = 40, !.onmsg = 10, !.unreg = 5, !.na = 0, !.hb = 10, !.auth = 10, !.ys = {0},
                          !.rts = <<"none", "url">>, !.st = <<"push">>, !.ns = 3]
    [] f = "chain" -> [Base EXCEPT !.nc = 2, !.nu = 4, !.prog = 6, !.na = 7, !.acts = <<"next", "next", "next", "abort", "abort", "reply", "sreq", "greq", "sleep", "panic">>, !.unreg = 3,
                          !.modes = <<"pack", "pack", "pack", "udp">>]
    [] f = "mal" -> [Base EXCEPT !.nc = 3, !.nu = 4, !.mal = 55, !.malk = <<"json", "jarr", "hneg", "hbig", "short", "neg", "trunc", "junk", "bbig", "bneg", "pipe0", "pipen", "pipex", "pipet", "pipea", "pipeoff", "stuff">>,
                          !.max = 20, !.pipe = 20, !.na = 1, !.acts = <<"reply", "sleep">>, !.modes = <<"pack", "pack", "udp">>, !.tls = 10,
                          !.st = <<"push", "push", "push", "settle", "yield", "fin">>]
    [] f = "max" -> [Base EXCEPT !.nc = 2, !.nu = 4, !.max = 85, !.pipe = 30, !.mal = 25, !.malk = <<"trunc", "neg", "over", "over", "over">>, !.na = 1, !.acts = <<"reply">>, !.tls = 10,
                          !.st = <<"push", "push", "settle", "yield">>]
    [] f = "pipe" -> [Base EXCEPT !.nc = 2, !.nu = 6, !.pipe = 75, !.mal = 8, !.malk = <<"json", "hbig", "pipex", "pipeoff", "trunc", "short">>, !.na = 3, !.acts = <<"sleep", "sleep", "block", "reply", "panic", "abort", "next", "close">>,
                          !.max = 15, !.hb = 15, !.auth = 15, !.unreg = 15, !.st = <<"push", "push", "push", "settle", "yield", "release", "adv", "fin", "shut">>]
    [] f = "scope" -> [Base EXCEPT !.nc = 3, !.nu = 5, !.pipe = 20, !.na = 6, !.acts = <<"sreq", "sreq", "greq", "greq", "greq", "scon", "scon", "gcon", "gcon", "gcon", "sres", "next", "sleep", "online", "uname">>,
                          !.pool = 40, !.oc = <<"scon", "gcon">>, !.cl = <<"gcon">>, !.prog = 5, !.modes = <<"pack", "pack", "udp">>]
    [] f = "life" -> [Base EXCEPT !.nc = 4, !.nu = 3, !.occ = 90, !.ocl = 90, !.na = 2, !.acts = <<"close", "reply", "sleep", "isup", "panic", "online", "block">>, !.pool = 30, !.sig = 20, !.hb = 10, !.auth = 10, !.tls = 10,
                          !.mal = 8, !.malk = <<"json", "hbig", "neg">>, !.oc = <<"close", "isup", "scon", "online">>, !.cl = <<"isup", "reply", "lookup", "gcon">>, !.modes = <<"pack", "pack", "pack", "raw">>, !.raw = <<"rread", "rwrite", "reply", "next", "close">>,
                          !.st = <<"push", "push", "settle", "yield", "fin", "shut", "rst", "act", "adv", "release">>, !.sacts = <<"close", "isup", "close">>]
    [] f = "hb" -> [Base EXCEPT !.nc = 2, !.nu = 6, !.hb = 100, !.occ = 70, !.ocl = 70, !.na = 1, !.acts = <<"beat", "next", "reply", "panic", "close">>, !.pool = 20, !.sig = 20, !.prog = 3, !.modes = <<"pack", "pack", "pack", "raw">>, !.raw = <<"rread", "beat", "beat", "sleep">>,
                          !.st = <<"push", "push", "adv", "adv", "adv", "settle", "act", "fin">>, !.sacts = <<"beat", "beat", "isup", "close">>, !.ns = 14, !.ls = <<"isup", "reply">>,
                          !.adv = {20000, 30000, 40000, 60000, 90000, 100000, 110000, 135000, 142000, 160000}]
    [] f = "hb0" -> [Base EXCEPT !.nc = 4, !.nu = 1, !.hb = 100, !.hbp = 95, !.occ = 20, !.ocl = 20, !.na = 0, !.prog = 1, !.st = <<"push", "push", "push", "adv">>, !.adv = {60000, 90000, 160000}, !.ns = 8, !.ys = {1, 2}]
    [] f = "auth" -> [Base EXCEPT !.nc = 3, !.nu = 4, !.auth = 100, !.hb = 10, !.na = 1, !.acts = <<"pass", "pass", "deny", "reply", "next">>, !.prog = 3, !.sig = 20,
                          !.st = <<"push", "push", "adv", "adv", "settle", "act", "fin">>, !.sacts = <<"pass", "deny", "isup">>, !.adv = {10000, 30000, 50000, 70000, 90000}]
    [] f = "pool" -> [Base EXCEPT !.nc = 4, !.nu = 4, !.pool = 92, !.sig = 15, !.na = 2, !.acts = <<"online", "online", "online", "offline", "lookup", "sendto", "close", "uname", "mon", "moff", "mget", "sleep">>, !.prog = 2, !.oc = <<"online", "online">>, !.cl = <<"online", "lookup", "offline">>, !.ocl = 50, !.occ = 100,
                          !.st = <<"push", "push", "settle", "yield", "act", "act", "fin", "shut", "rst">>, !.sacts = <<"online", "online", "offline", "lookup", "close", "isup">>, !.mars = <<"json">>]
    [] f = "reply" -> [Base EXCEPT !.nc = 3, !.nu = 4, !.na = 3, !.acts = <<"reply", "reply", "reply", "replybad", "tocon", "sleep", "close">>, !.win = 25, !.occ = 100, !.oc = <<"reply">>, !.cl = <<"reply">>, !.prog = 2, !.big = 25, !.tls = 15,
                          !.modes = <<"pack", "pack", "pack", "udp">>, !.st = <<"push", "push", "push", "settle", "yield", "fin", "shut", "act", "open", "drain">>, !.sacts = <<"reply", "reply", "tocon">>]
    [] f = "sendto" -> [Base EXCEPT !.nc = 4, !.nu = 4, !.pool = 100, !.occ = 100, !.na = 3, !.acts = <<"sendto", "sendto", "sendto", "online", "reply", "tocon", "offline", "close">>, !.oc = <<"online", "online", "online">>, !.prog = 1, !.win = 15,
                          !.st = <<"push", "push", "push", "settle", "yield", "fin", "shut", "act", "open">>, !.sacts = <<"sendto", "online", "offline", "tocon">>]
    [] f = "stop" -> [Base EXCEPT !.nc = 5, !.nu = 3, !.nlis = 3, !.modes = <<"pack", "pack", "udp", "raw">>, !.pool = 50, !.sig = 50, !.hb = 25, !.auth = 10, !.na = 2, !.acts = <<"online", "reply", "sleep", "block", "lookup", "close">>, !.oc = <<"online">>, !.raw = <<"rread", "rwrite", "reply", "online">>, !.tls = 10,
                          !.st = <<"dial", "dial", "push", "push", "settle", "yield", "stop", "stopall", "stopall", "start", "start", "restart", "restartall", "fin", "shut", "adv", "release">>, !.ns = 16, !.sacts = <<"online">>]
    [] f = "busy" -> [Fam("stop") EXCEPT !.st = <<"again", "again", "again", "dial", "dial", "push", "push", "settle", "stop", "stopall", "start", "start", "restart", "restartall", "fin">>]
    [] f = "long" -> [Base EXCEPT !.nc = 2, !.nu = 150, !.pipe = 10, !.pls = <<20, 33, 40, 65, 70, 100, 129>>, !.na = 1, !.acts = <<"reply", "panic", "next", "next">>, !.prog = 2, !.max = 0, !.big = 1, !.sizes = {2000}, !.ns = 5,
                          !.rts = <<"none", "url", "nil">>, !.st = <<"push", "push", "settle", "yield", "fin">>]
    [] f = "dlt" -> [Fam("dl") EXCEPT !.tls = 100, !.past = {}, !.modes = <<"pack">>]      \* a deadline in the past spoils the TLS handshake
    [] f = "dl" -> [Base EXCEPT !.nc = 2, !.tls = 0, !.past = {-20000}, !.nu = 4, !.dl = 70, !.na = 2, !.acts = <<"rdl", "wdl", "dl", "reply", "reply", "sleep">>, !.oc = <<"rdl", "wdl", "dl">>, !.occ = 80, !.prog = 2, !.win = 15, !.modes = <<"pack", "pack", "pack", "raw">>, !.raw = <<"rread", "rwrite", "rread", "rdl", "wdl", "reply">>,
                          !.st = <<"push", "push", "adv", "adv", "settle", "act", "fin">>, !.sacts = <<"rdl", "wdl", "dl", "reply", "reply">>, !.adv = {10000, 30000, 50000, 70000, 90000}]
    [] f = "udp" -> [Base EXCEPT !.nc = 4, !.nu = 5, !.modes = <<"udp">>, !.nlis = 2, !.na = 3, !.acts = <<"reply", "reply", "sreq", "greq", "scon", "gcon", "bind", "ip", "next", "abort", "sleep", "panic", "block", "isup">>, !.mal = 25, !.malk = <<"json", "jarr", "hneg", "hbig", "short", "neg", "trunc", "tail", "tail", "stuff", "junk">>, !.ipv6 = 25, !.prog = 4, !.big = 20, !.hb = 10, !.auth = 10, !.pool = 20,
                          !.st = <<"push", "push", "push", "push", "settle", "yield", "release", "adv">>]
    [] f = "raw" -> [Base EXCEPT !.nc = 3, !.nu = 3, !.modes = <<"raw", "raw", "raw", "pack">>, !.nlis = 2, !.na = 2, !.acts = <<"reply">>, !.raw = <<"rread", "rread", "rwrite", "rwritew", "reply", "next", "abort", "sleep", "panic", "block", "close", "isup", "scon", "gcon", "sreq", "greq">>, !.hb = 15, !.sig = 15, !.pool = 15, !.max = 25, !.dl = 10, !.prog = 4, !.win = 10, !.occ = 80, !.ocl = 80,
                          !.st = <<"push", "push", "push", "settle", "yield", "fin", "shut", "rst", "release", "adv", "open">>]
    [] f = "iso" -> [Base EXCEPT !.nc = 4, !.nu = 4, !.na = 2, !.acts = <<"block", "sleep", "reply", "reply", "reply", "panic", "next">>, !.win = 35, !.pipe = 15, !.big = 30, !.prog = 3, !.nlis = 2, !.modes = <<"pack", "pack", "udp", "raw">>, !.raw = <<"rread", "rwrite", "block", "sleep">>, !.pool = 30, !.oc = <<"online">>, !.sameclose = 20,
                          !.st = <<"push", "push", "push", "settle", "settle", "yield", "release", "adv", "open", "fin", "shut">>]
    [] f = "crowd" -> [Base EXCEPT !.nc = 3, !.nu = 3, !.crowd = 100, !.na = 1, !.acts = <<"reply", "next">>, !.prog = 2, !.nlis = 2, !.modes = <<"pack", "pack", "udp">>, !.hb = 30, !.ns = 8, !.win = 0, !.max = 0, !.big = 0, !.ys = {0, 1, 2},
                          !.st = <<"push", "push", "push", "settle", "settle", "release", "adv", "fin">>, !.adv = {1000, 30000}]
    [] f = "many" -> [Base EXCEPT !.nc = 40, !.nu = 2, !.crowd = 200, !.na = 1, !.acts = <<"reply", "online", "block", "sleep", "sendto">>, !.pool = 50, !.prog = 1, !.hb = 20, !.occ = 100, !.win = 0, !.max = 0, !.big = 0, !.ns = 30, !.ys = {0, 1, 2},
                          !.st = <<"push", "push", "push", "push", "push", "push", "settle", "fin", "shut">>]
    [] f = "bigrep" -> [Base EXCEPT !.nc = 2, !.nu = 6, !.na0 = 1, !.na = 1, !.unreg = 0, !.max = 0, !.hb = 3, !.auth = 3, !.acts = <<"reply", "reply", "reply", "reply", "sendto">>, !.pool = 50, !.oc = <<"online">>, !.occ = 100, !.big = 80, !.sizes = {5000, 33000, 66000, 70000, 132000, 200000}, !.win = 15, !.prog = 1, !.nlis = 2, !.modes = <<"pack", "pack", "pack", "udp">>,
                          !.rts = <<"none", "url", "nil">>, !.tls = 20, !.ys = {1, 2, 3, 4, 5, 6}, !.st = <<"push", "push", "push", "settle", "open", "fin">>, !.ns = 6]

-----------------------------------------------------------------------------
(* Actions of handlers and callbacks *)

ACT(k, a, n, str, x) == [k |-> k, a |-> a, n |-> n, s |-> str, x |-> x]
NAMES == {"u1", "u2", "U1"}
Sizes(F) == IF Pct(F.big) THEN R(F.sizes) ELSE R({0, 1, 5, 30, 100})
Methods == <<"Reply", "Reply", "Reply+H", "JSON", "JSON+H", "XML", "XML+H", "TOML", "TOML+H", "YAML", "YAML+H", "ProtoBuf", "ProtoBuf+H",
             "RWM:json", "RWM:yaml+H", "RWM:xml", "RWM:protobuf", "RWM:toml+H">>
Ids == {0, 1, 7, 300, -5, 2147483647, -2147483647}

(* an action at link k; url tells whether it happens inside a URL-routed request, nc how many connections there are *)
MkAct(F, kind, k, url, nc) ==
  CASE kind = "panic" -> ACT(k, "panic", R(0..3), "", 0)
    [] kind = "sleep" -> ACT(k, "sleep", R({500, 3000, 30000, 80000}), "", 0)
    [] kind = "block" -> ACT(k, "block", R(1..3), "", 0)
    [] kind = "reply" -> IF url /\ Pct(40) THEN ACT(k, "reply", 0, R({"JSONURL", "PBURL"}), Sizes(F))
                         ELSE ACT(k, "reply", R(Ids), W(Methods), Sizes(F))
    [] kind = "replybad" -> ACT(k, "reply", R(Ids), "BAD", 0)
    [] kind = "sendto" -> ACT(k, "sendto", R(Ids), R(NAMES), Sizes(F))
    [] kind = "tocon" -> ACT(k, "tocon", R(Ids), "", R(1..nc))
    [] kind \in {"sreq", "greq"} -> ACT(k, kind, R(1..1000), R({"q1", "q2"}), 0)
    [] kind \in {"scon", "gcon"} -> ACT(k, kind, R(1..1000), R({"q1", "q2", "2"}), 0)
    [] kind = "sres" -> ACT(k, "sres", 1, R({"tcpx-username", "tcpx-x"}), 0)
    [] kind \in {"online", "lookup", "mon", "moff", "mget"} -> ACT(k, kind, 0, R(NAMES), 0)
    [] kind \in {"dl", "rdl", "wdl"} -> ACT(k, kind, R({-1, 20000, 40000, 60000, 100000} \cup F.past), "", 0)
    [] kind = "rread" -> ACT(k, "rread", R({1, 10, 40, 100, 300, 1000, 5000}), "", 0)
    [] kind \in {"rwrite", "rwritew"} -> ACT(k, kind, 0, "", Sizes(F))
    [] OTHER -> ACT(k, kind, 0, "", 0)

(* addresses of the links a message (or a raw connection) meets *)
KeyLinks(q) == {"k" \o q[j] : j \in 1..Len(q)}
NumLinks(c, k) == {c \o ToString(j) : j \in 1..k}
LinksOf(reg, cfg, mode, m) ==
  LET g == NumLinks("g", Len(reg.glob))
      xs == IF m.rt = "url" THEN SelectSeq(reg.urls, LAMBDA z : z.u = m.u) ELSE SelectSeq(reg.ids, LAMBDA z : z.id = m.id) IN
  {"h"} \cup (IF mode = "raw" \/ cfg.onmsg THEN g \cup KeyLinks(reg.keys)
             ELSE IF xs = <<>> THEN {} ELSE g \cup KeyLinks(xs[1].mid) \cup NumLinks("s", Len(xs[1].self)))

RECURSIVE MkActs(_, _, _, _, _, _)
(* n actions at the given links *)
MkActs(F, kinds, n, links, url, nc) ==
  IF n = 0 \/ kinds = <<>> THEN <<>>
  ELSE <<MkAct(F, W(kinds), IF Pct(40) THEN "h" ELSE R(links), url, nc)>> \o MkActs(F, kinds, n - 1, links, url, nc)

-----------------------------------------------------------------------------
(* Registrations *)

PCALL(op, id, u, ks, n) == [op |-> op, id |-> id, u |-> u, ks |-> ks, n |-> n]
Keys == {"a", "b", "c"}
URLS == {"/x", "/X", "/y/z", "/x/", "x"}
MIDS == {0, 1, 2, 5, -7, 2147483647}

RECURSIVE Distinct(_, _)
Distinct(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Distinct(S \ {x}, n - 1)

RndCall(r) ==
  LET op == W(<<"global", "use", "use", "unuse", "tog", "tog", "tog", "tog", "add", "add", "add", "add", "any", "any">>) IN
  CASE op = "global" -> PCALL("global", 0, "", <<>>, IF FAM = "chain" /\ Pct(4) THEN R({20, 40, 70, 140}) ELSE R(1..2))
    [] op = "use" -> PCALL("use", 0, "", Distinct(Keys, W(<<1, 1, 2>>)), 0)
    [] op = "tog" -> LET k == R(Keys) IN PCALL(IF k \in r.used THEN "unuse" ELSE "use", 0, "", <<k>>, 0)
    [] op = "unuse" -> PCALL("unuse", 0, "", Distinct(Keys, W(<<1, 1, 2>>)), 0)
    [] op = "add" -> PCALL("add", R(MIDS), "", <<>>, W(<<0, 0, 1, 2>>))
    [] op = "any" -> PCALL("any", 0, R(URLS), <<>>, W(<<0, 0, 1, 2>>))

RECURSIVE MkProg(_, _, _, _)
(* random consistent calls, up to n of them *)
MkProg(prog, r, n, cfg) ==
  IF n = 0 THEN prog
  ELSE LET p == RndCall(r)
           r2 == RegCall(r, p, Len(prog) + 1, cfg) IN
       IF r2.bad THEN MkProg(prog, r, n - 1, cfg) ELSE MkProg(Append(prog, p), r2, n - 1, cfg)

(* and one more that is refused *)
BadCall(r) ==
  LET c1 == IF r.used = {} THEN <<>> ELSE <<PCALL("use", 0, "", <<R(r.used)>>, 0)>>
      c2 == IF Keys \ r.used = {} THEN <<>> ELSE <<PCALL("unuse", 0, "", <<R(Keys \ r.used)>>, 0)>>
      c3 == IF r.ids = <<>> THEN <<>> ELSE <<PCALL("add", r.ids[R(1..Len(r.ids))].id, "", <<>>, R(0..1))>>
      cs == c1 \o c2 \o c3 IN IF cs = <<>> THEN PCALL("unuse", 0, "", <<"a">>, 0) ELSE W(cs)

GenProg(F, cfg0) ==
  LET p0 == IF cfg0.hb.on THEN <<PCALL("hb", 0, "", <<>>, 0)>> ELSE <<>>
      p1 == IF cfg0.auth.on THEN Append(p0, PCALL("auth", 0, "", <<>>, 0)) ELSE p0
      k  == R(0..F.prog)
      a  == MkProg(<<>>, RegInit, k \div 2, cfg0)                 \* before heartbeat and auth are configured
      r1 == RegFold(RegInit, a \o p1, 1, cfg0)
      b  == MkProg(a \o p1, r1, k - k \div 2, cfg0)
      c  == IF cfg0.hb.on /\ Pct(30) THEN Append(b, PCALL("rwhb", R({1392, 77}), "", <<>>, 0)) ELSE b
      rc == RegFold(RegInit, c, 1, cfg0)
      d  == IF rc.ids = <<>> THEN Append(c, PCALL("add", 1, "", <<>>, 0)) ELSE c
  IN IF Pct(F.badprog) THEN Append(d, BadCall(RegFold(RegInit, d, 1, cfg0))) ELSE d

-----------------------------------------------------------------------------
(* Configurations *)

Nets(mode, F) == IF mode = "udp" THEN W(<<"udp", "udp", "udp4", "udp6">>) ELSE W(F.nets)
Stream(n) == n \in {"tcp", "tcp4", "tcp6"}
Unix(n) == n \in {"unix", "unixpacket"}
RECURSIVE MkLis(_, _)
MkLis(F, i) ==
  IF i = 0 THEN <<>>
  ELSE LET mode == W(F.modes)
           n0 == Nets(mode, F)
           q == MkLis(F, i - 1)
           share == i > 1 /\ ~(\E j \in 1..(i - 1) : q[j].a = q[i - 1].a /\ Stream(q[j].n) = Stream(n0)) /\ ~Unix(q[i - 1].n) /\ ~Unix(n0) /\ Pct(F.share)     \* a tcp and a udp listener on one address
           a == IF share THEN q[i - 1].a
                ELSE IF Unix(n0) THEN "/tmp/vx" \o ToString(i)
                ELSE IF n0 \in {"tcp6", "udp6"} THEN "[::1]:" \o ToString(9000 + i) ELSE "127.0.0.1:" \o ToString(9000 + i) IN
       Append(q, [n |-> n0, a |-> a, mode |-> mode, buf |-> IF mode = "udp" THEN W(<<0, 0, 200, 512>>) ELSE 0])

MkCfg(F) ==
  LET hbon == Pct(F.hb)
      auon == Pct(F.auth)
      lis == MkLis(F, R(1..F.nlis))
      hb == [on |-> hbon, iv |-> R({40000, 50000}), id |-> W(<<1392, 1392, 77>>), thru |-> Pct(35), loss |-> hbon /\ Pct(60)]
      au == [on |-> auon, dl |-> R({40000, 60000}), id |-> W(<<1393, 78>>), thru |-> Pct(35)]
      tls == Pct(F.tls)
      d1 == Pct(F.dl) /\ ~tls /\ ~\E j \in 1..Len(lis) : lis[j].mode = "udp"   \* deadlines are a matter of plain connections
      cfg0 == [lis |-> lis, tls |-> tls, mar |-> W(F.mars), max |-> IF Pct(F.max) THEN R({60, 100, 150, 1000, 4000}) ELSE R({0, -1}), pool |-> Pct(F.pool), sig |-> Pct(F.sig),
               hb |-> hb, auth |-> au, onmsg |-> Pct(F.onmsg), occ |-> Pct(F.occ), ocl |-> Pct(F.ocl),
               dl |-> IF d1 /\ Pct(40) THEN R({50000, 80000}) ELSE 0, rdl |-> IF d1 /\ Pct(40) THEN R({30000, 60000}) ELSE 0, wdl |-> IF d1 /\ Pct(40) THEN R({30000, 60000}) ELSE 0,
               y |-> R(F.ys), prog |-> <<>>] IN
  [cfg0 EXCEPT !.prog = GenProg(F, cfg0)]

-----------------------------------------------------------------------------
(* Clients *)

LastOnly == {"trunc", "junk", "bbig", "bneg", "over"}

MkUnit(F, cfg, reg, mode, nc, last, inpipe) ==
  LET mal0 == IF Pct(F.mal) THEN W(F.malk) ELSE ""
      mal == IF (mal0 \in LastOnly /\ ~last) \/ (mal0 = "tail" /\ mode # "udp") THEN "" ELSE mal0
      ru == {reg.urls[i].u : i \in 1..Len(reg.urls)}
      ri == {reg.ids[i].id : i \in 1..Len(reg.ids)}
      rt0 == W(F.rts)
      rt == IF rt0 = "url" /\ ru = {} THEN "none" ELSE rt0
      id == IF ri = {} \/ Pct(F.unreg) THEN R(MIDS \cup {99}) ELSE R(ri)
      id2 == IF cfg.hb.on /\ mode = "pack" /\ Pct(F.hbp) THEN reg.hbid ELSE IF cfg.auth.on /\ Pct(35) THEN cfg.auth.id ELSE id
      u == IF rt \in {"url", "other", "num", "val", "idu"} THEN (IF ru = {} \/ Pct(F.unreg) THEN R(URLS \cup {"/none"}) ELSE R(ru)) ELSE ""
      builtin == cfg.hb.on /\ \E i \in 1..Len(reg.ids) : reg.ids[i].id = id2 /\ reg.ids[i].h = "~hb"
      special == {reg.hbid, cfg.auth.id}
      pipe == IF mode = "pack" /\ ~inpipe /\ mal = "" /\ ~last /\ Pct(F.pipe) THEN W(F.pls) ELSE 0
      bl == IF mal = "junk" THEN R(0..40) ELSE IF Pct(4) THEN -1 ELSE IF F.sizes = Base.sizes THEN Sizes(F) ELSE R({0, 5, 30})
      kinds0 == IF builtin THEN SelectSeq(F.acts, LAMBDA a : a \in {"next", "abort"})
                ELSE IF id2 \in special /\ (cfg.hb.on \/ cfg.auth.on) /\ rt # "url" THEN SelectSeq(F.acts, LAMBDA a : a \in {"beat", "pass", "deny", "next", "reply", "panic", "close"}) ELSE F.acts
      kinds1 == IF bl < 0 \/ mal # "" THEN SelectSeq(kinds0, LAMBDA a : a # "bind") ELSE kinds0
      kinds2 == IF mode = "udp" THEN SelectSeq(kinds1, LAMBDA a : a \notin {"close", "online", "offline", "beat", "pass", "deny", "dl", "rdl", "wdl", "uname", "tocon", "sres"}) ELSE kinds1
      kinds3 == IF cfg.occ THEN kinds2 ELSE SelectSeq(kinds2, LAMBDA a : a # "tocon")
      kinds4 == IF cfg.mar \in {"json", "xml", "protobuf"} THEN kinds3 ELSE SelectSeq(kinds3, LAMBDA a : a # "replybad")
      hbact == IF cfg.hb.on /\ id2 = reg.hbid /\ ~builtin /\ Pct(80) THEN <<ACT("h", "beat", 0, "", 0)>> ELSE <<>>
      auact == IF cfg.auth.on /\ id2 = cfg.auth.id /\ mode = "pack" /\ Pct(70) THEN <<ACT("h", R({"pass", "pass", "deny"}), 0, "", 0)>> ELSE <<>>
      badprog == reg.bad
  IN [id |-> id2, rt |-> rt, u |-> u, bl |-> bl, mal |-> IF mal = "over" THEN "trunc" ELSE mal, pipe |-> pipe,
      do |-> hbact \o auact \o MkActs(F, kinds4, R(F.na0..F.na), LinksOf(reg, cfg, mode, [id |-> id2, rt |-> rt, u |-> u]), rt = "url" /\ mal = "", nc), size |-> 0, decl |-> 0, hk |-> ""]

RECURSIVE MkUnits(_, _, _, _, _, _, _, _)
MkUnits(F, cfg, reg, mode, nc, k, n, pl) ==
  IF k > n THEN <<>>
  ELSE LET u == MkUnit(F, cfg, reg, mode, nc, k = n, pl > 0) IN
       <<u>> \o MkUnits(F, cfg, reg, mode, nc, k + 1, n, IF pl > 0 THEN pl - 1 ELSE IF u.pipe > 1 THEN u.pipe - 1 ELSE 0)

(* many messages that all get stuck *)
Crowd(reg, k) ==
  LET x == [id |-> reg.ids[1].id, rt |-> "none", u |-> "", bl |-> 5, mal |-> "", pipe |-> 0, do |-> <<ACT("h", "block", 1, "", 0)>>, size |-> 0, decl |-> 0, hk |-> ""] IN
  [j \in 1..k |-> IF j = k /\ Pct(60) THEN [x EXCEPT !.do = <<>>] ELSE x]

MkConn(F, cfg, reg, i, nc) ==
  LET l == R(1..Len(cfg.lis))
      mode == cfg.lis[l].mode
      us == IF F.crowd = 100 /\ i = 1 /\ mode # "raw" THEN Crowd(reg, W(<<20, 34, 66, 130>>)) ELSE MkUnits(F, cfg, reg, mode, nc, 1, R(1..F.nu), 0)
      net == cfg.lis[l].n
      win == IF mode # "udp" /\ ~(cfg.tls /\ mode = "pack") /\ Pct(F.win) THEN R({50, 400, 3000}) ELSE 0
      occ == SelectSeq(F.oc, LAMBDA a : (a # "close" \/ mode # "raw") /\ (a # "reply" \/ win = 0)) IN
  [l |-> l, units |-> us, eof |-> Pct(F.eof), win |-> win,
   rs |-> IF Pct(60) THEN <<>> ELSE W(<< <<1>>, <<3>>, <<7, 1>>, <<4, 12>>, <<1000>>, <<5, 4, 3, 2, 1>> >>),
   oc |-> IF Pct(50) THEN MkActs(F, occ, R(0..2), {"h"}, FALSE, nc) ELSE <<>>,
   cl |-> MkActs(F, IF win > 0 THEN SelectSeq(F.cl, LAMBDA a : a # "reply") ELSE F.cl, R(0..1), {"h"}, FALSE, nc), ls |-> MkActs(F, F.ls, R(0..1), {"h"}, FALSE, nc),
   raw |-> IF mode = "raw" THEN MkActs(F, F.raw, R(0..4), LinksOf(reg, cfg, "raw", [id |-> 0, rt |-> "", u |-> ""]), FALSE, nc) ELSE <<>>,
   rem |-> IF Unix(net) THEN "@c" \o ToString(i)
           ELSE IF Pct(F.ipv6) THEN "[2001:db8::" \o ToString(i) \o "]:" \o ToString(40000 + i)
           ELSE "10.1.2." \o ToString(i) \o ":" \o ToString(40000 + i)]

RECURSIVE MkConns(_, _, _, _, _)
MkConns(F, cfg, reg, i, n) == IF i > n THEN <<>> ELSE <<MkConn(F, cfg, reg, i, n)>> \o MkConns(F, cfg, reg, i + 1, n)

-----------------------------------------------------------------------------
(* Steps *)

NOACT == ACT("", "", 0, "", 0)
ST0 == [op |-> "", c |-> 0, n |-> 0, s |-> "", u |-> 0, f |-> 0, fin |-> FALSE, g |-> FALSE, act |-> NOACT]

VARIABLES scn,     \* the scenario under construction
          env,   \* what the environment has done: [dialled, ended: sets of connections, sent: units sent, up, left]
          n, out

MkScn(F, id) ==
  LET cfg == MkCfg(F)
      reg == RegOf(cfg)
      nc == IF F.crowd = 200 THEN R({12, 20, F.nc}) ELSE R(1..F.nc) IN
  [id |-> id, fam |-> FAM, seed |-> R(1..30000), cfg |-> cfg,
   conns |-> IF reg.bad THEN <<>> ELSE MkConns(F, cfg, reg, 1, nc), steps |-> <<>>]

NC == Len(scn.conns)
Udp(c) == scn.cfg.lis[scn.conns[c].l].mode = "udp"
Add(q, e) == [q |-> q, e |-> [e EXCEPT !.left = @ - 1]]
Alive == {c \in env.dialled : c \notin env.ended}

SDial(c) == Add(<<[ST0 EXCEPT !.op = "dial", !.c = c]>>, [env EXCEPT !.dialled = @ \cup {c}])

SPush(F, c) ==
  LET tot == Len(scn.conns[c].units)
      to == IF Pct(40) THEN tot ELSE R(env.sent[c]..tot)
      f == IF to < tot /\ Pct(40) THEN R({3, 10, 30, 50, 70, 99}) ELSE 0
      fin == to = tot /\ ~Udp(c) /\ "fin" \in {F.st[i] : i \in 1..Len(F.st)} /\ Pct(IF scn.conns[c].eof THEN 60 ELSE 15)
      st == [ST0 EXCEPT !.op = "push", !.c = c, !.u = to, !.f = f, !.n = W(<<0, 0, -1, -1, 1, 3, 50>>), !.fin = fin] IN
  Add((IF c \in env.dialled THEN <<>> ELSE <<[ST0 EXCEPT !.op = "dial", !.c = c]>>) \o <<st>>,
      [env EXCEPT !.dialled = @ \cup {c}, !.sent[c] = to, !.ended = IF fin THEN @ \cup {c} ELSE @])

Settle == <<[ST0 EXCEPT !.op = "settle"]>>

Quieten(op) == op \in {"rdl", "wdl", "dl"}

Step(F) ==
  LET op == W(F.st)
      nd == (1..NC) \ env.ended IN
  CASE op = "dial" /\ (1..NC) \ env.dialled # {} /\ env.up -> SDial(R((1..NC) \ env.dialled))
    [] op = "push" /\ (IF env.up THEN nd ELSE nd \cap env.dialled) # {} -> SPush(F, R(IF env.up THEN nd ELSE nd \cap env.dialled))
    [] op = "fin" /\ {c \in Alive : ~Udp(c)} # {} -> LET c == R({c \in Alive : ~Udp(c)}) IN Add(<<[ST0 EXCEPT !.op = "fin", !.c = c]>>, [env EXCEPT !.ended = @ \cup {c}])
    [] op \in {"shut", "rst"} /\ {c \in Alive : ~Udp(c)} # {} /\ Pct(50) -> LET c == R({c \in Alive : ~Udp(c)}) IN Add(<<[ST0 EXCEPT !.op = op, !.c = c]>>, [env EXCEPT !.ended = @ \cup {c}])
    [] op = "drain" /\ Alive # {} -> Add(<<[ST0 EXCEPT !.op = "drain", !.c = R(Alive)]>>, env)
    [] op = "open" /\ {c \in env.dialled : scn.conns[c].win > 0} # {} -> Add(<<[ST0 EXCEPT !.op = "open", !.c = R({c \in env.dialled : scn.conns[c].win > 0})]>>, env)
    [] op = "adv" -> Add(<<[ST0 EXCEPT !.op = "adv", !.n = R(F.adv)]>> \o (IF Pct(40) THEN Settle ELSE <<>>), env)
    [] op = "yield" -> Add(<<[ST0 EXCEPT !.op = "yield", !.n = R({100, 1000, 5000, 20000, 100000})]>>, env)
    [] op = "settle" -> Add(Settle, env)
    [] op = "release" -> Add(<<[ST0 EXCEPT !.op = "release", !.n = R(1..3)]>>, env)
    [] op = "act" /\ scn.cfg.occ /\ {c \in env.dialled : ~Udp(c)} # {} ->
         LET c == R({c \in env.dialled : ~Udp(c)})
             a == MkAct(F, W(F.sacts), "st", FALSE, NC)
             raw == scn.cfg.lis[scn.conns[c].l].mode = "raw"
             st == [ST0 EXCEPT !.op = "act", !.c = c, !.act = a, !.g = Pct(50) /\ ~Quieten(a.a)] IN
         IF raw /\ a.a \in {"close", "pass", "deny"} THEN Add(Settle, env)
         ELSE Add((IF Quieten(a.a) THEN Settle ELSE <<>>) \o <<st>> \o (IF Quieten(a.a) THEN Settle ELSE <<>>), env)
    [] op = "again" /\ env.up -> Add(Settle \o <<[ST0 EXCEPT !.op = "again", !.u = R(1..Len(scn.cfg.lis))]>> \o Settle, env)
    [] op \in {"stop", "stopall"} -> LET all == op = "stopall" IN
         Add(<<[ST0 EXCEPT !.op = "stop", !.s = IF all THEN "all" ELSE ""]>> \o Settle, [env EXCEPT !.up = FALSE])
    [] op = "start" /\ (~env.up \/ Pct(20)) -> Add(<<[ST0 EXCEPT !.op = "start"]>> \o Settle, [env EXCEPT !.up = TRUE])
    [] op \in {"restart", "restartall"} -> LET all == op = "restartall" IN
         Add(<<[ST0 EXCEPT !.op = "restart", !.s = IF all THEN "all" ELSE "", !.n = R(0..3)]>> \o Settle, env)
    [] OTHER -> Add(Settle, env)

Env0(F, sc) == [dialled |-> {}, ended |-> {}, sent |-> [c \in 1..Len(sc.conns) |-> 0], up |-> TRUE, left |-> IF sc.conns = <<>> THEN 0 ELSE R(2..F.ns)]

(* random choices are bound by a quantifier so that every conjunct sees the same ones *)
New == \E sc \in {MkScn(Fam(FAM), BASE + n + 1)} : scn' = sc /\ env' = Env0(Fam(FAM), sc)

NotDone == {c \in 1..NC : c \notin env.ended /\ env.sent[c] < Len(scn.conns[c].units)}
RECURSIVE Flush(_)
Flush(S) == IF S = {} THEN <<>>
            ELSE LET c == CHOOSE c \in S : TRUE IN
                 (IF c \in env.dialled THEN <<>> ELSE <<[ST0 EXCEPT !.op = "dial", !.c = c]>>)
                 \o <<[ST0 EXCEPT !.op = "push", !.c = c, !.u = Len(scn.conns[c].units), !.n = W(<<0, -1>>)]>> \o Flush(S \ {c})

Init == /\ n = 0 /\ out = <<>>
        /\ scn = <<>> /\ env = <<>>

Next ==
  IF env = <<>> THEN New /\ UNCHANGED <<n, out>>
  ELSE IF env.left > 0
  THEN \E v \in {Step(Fam(FAM))} : scn' = [scn EXCEPT !.steps = @ \o v.q] /\ env' = v.e /\ UNCHANGED <<n, out>>
  ELSE \* the scenario is complete
    /\ n < COUNT
    /\ LET tail == IF NC = 0 THEN <<>> ELSE IF env.up /\ Pct(70) THEN Flush(NotDone) \o Settle ELSE Settle IN
       out' = Append(out, [scn EXCEPT !.steps = @ \o tail])
    /\ n' = n + 1 /\ env' = <<>> /\ scn' = <<>>

Written == (n = COUNT /\ env = <<>>) => ndJsonSerialize(OUT, out)
Stop == n < COUNT
=============================================================================
