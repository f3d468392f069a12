------------------------------ MODULE CodecEnv ------------------------------
(* The calls that can be made of the codec and client functions.  Families starting with "c" are drawn by TLC's      *)
(* simulator, families starting with "x" are complete enumerations (one initial state, everything written at once). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

FAM   == IOEnv.FAM
TIER  == IOEnv.TIER
COUNT == atoi(IOEnv.COUNT)
BASE  == atoi(IOEnv.BASE)
OUT   == IOEnv.OUT

R(S)  == RandomElement(S)
Pct(n) == R(1..100) <= n
W(q)  == q[R(1..Len(q))]
MIN32 == -2147483647 - 1

OP0 == [op |-> "", fn |-> "", id |-> 0, hk |-> "none", bk |-> "", n |-> 0, mar |-> "json", tail |-> 0, decl |-> 0, hl |-> 0, bl |-> 0, tot |-> 0,
        msgs |-> <<>>, cuts |-> <<>>, eof |-> FALSE, max |-> 0, bad |-> 0]

PackFns == {"Packx.Pack", "PackWithMarshaller", "PackWithMarshallerName", "Pack", "Message.Pack", "Message.Set", "NewMessage", "NewURLPatternMessage",
            "Packx.PackWithBody", "PackWithMarshallerAndBody", "PackHeartbeat", "PackStuff", "PackJSON"}
Mars == {"", "json", "xml", "yaml", "toml", "protobuf"}
Hdrs == {"none", "nil", "empty", "simple", "id", "url", "two", "nested", "uni", "num", "many", "big", "h16", "bad"}
Ids  == {0, 1, -1, 7, 255, 256, 1392, 65536, 16777216, 2147483647, MIN32}
ReadFns == {"FirstBlockOf", "Packx.FirstBlockOf", "UnpackToBlockFromReader", "Recv"}
LimFns  == {"FirstBlockOfLimitMaxByte", "Packx.FirstBlockOfLimitMaxByte", "UnpackToBlockFromReaderLimitMaxLengthOfByte"}
ULIM    == "UnpackToBlockFromReaderLimitMaxLengthOfByte"   (* takes its limit literally: 0 allows nothing *)

-----------------------------------------------------------------------------
(* random calls *)

Size == IF Pct(70) THEN R(0..300) ELSE IF Pct(60) THEN R(900..1300) ELSE R({4000, 4096, 16384, 65535, 65536, 70000})
RPack0 == [OP0 EXCEPT !.op = "pack", !.fn = R(PackFns), !.id = R(Ids), !.hk = R(Hdrs), !.bk = W(<<"s", "s", "s", "s", "s", "s", "nil", "empty", "bad">>), !.n = Size,
                     !.mar = R(Mars), !.tail = W(<<0, 0, 1, 3, 4, 16, 40>>)]
RPack == LET o == RPack0 IN IF o.bk = "bad" /\ o.mar \in {"yaml", "toml"} THEN [o EXCEPT !.mar = "json"] ELSE o
Lens == {-1, -2, MIN32, 0, 1, 2, 3, 4, 5, 11, 12, 13, 16, 20, 30, 63, 64, 65, 1000, 2147483647, 2147483643}
RBytes == LET hl == R(Lens)
              bl == R(Lens) IN
          [OP0 EXCEPT !.op = "bytes", !.mar = R(Mars), !.id = R(Ids), !.hl = hl, !.bl = bl, !.hk = R({"json", "null", "empty", "text", ""}),
                      !.decl = IF Pct(50) /\ hl < 10000 /\ bl < 10000 /\ hl > -10000 /\ bl > -10000 THEN 12 + hl + bl ELSE R(Lens), !.tot = R(0..150)]
RMsg(big) == [OP0 EXCEPT !.op = "pack", !.id = R(Ids), !.hk = R({"none", "hl0", "empty", "simple", "url", "nested", "uni", "num"}), !.bk = R({"s", "nil", "empty"}),
                    !.n = IF big THEN Size ELSE R(0..40), !.mar = R(Mars)]
RSeq(x(_), n) == [j \in 1..n |-> x(j)]
RCuts == LET n == R(0..5) IN [j \in 1..n |-> R({0, 1, 1, 2, 3, 4, 5, 7, 16, 100, 1000})]
RRead == LET n == R(0..6)
             lim == Pct(40)
             big == Pct(20)
             q == [j \in 1..n |-> RMsg(big)]
             badlen == Pct(20) /\ n > 0 IN
         [OP0 EXCEPT !.op = "read", !.fn = IF lim THEN R(LimFns) ELSE R(ReadFns), !.max = IF lim THEN R({12, 16, 20, 40, 60, 100, 1000}) ELSE 0,
                     !.msgs = IF badlen THEN [q EXCEPT ![n] = [OP0 EXCEPT !.op = "bytes", !.decl = R({-1, MIN32, 1, 3, 11, 5000}), !.tot = R(4..60)]] ELSE q,
                     !.cuts = RCuts, !.eof = Pct(50), !.tot = IF Pct(40) THEN R(1..200) ELSE 0, !.tail = IF Pct(20) THEN R(1..3) ELSE 0, !.bk = IF Pct(30) THEN "reset" ELSE ""]
RHelp == LET f == R({"WriteJSON", "PipeJSON", "PipeJSON", "TCPCallOnceJSON", "WriteConn"})
             n == IF f = "PipeJSON" THEN (IF Pct(15) THEN R(6..40) ELSE R(1..5)) ELSE 1
             bad == IF Pct(30) THEN (IF f = "PipeJSON" THEN R(1..n) ELSE IF f = "TCPCallOnceJSON" THEN 1 ELSE 0) ELSE 0
             q == [j \in 1..n |-> [RMsg(TRUE) EXCEPT !.mar = "json"]]
             ms == IF f \in {"WriteJSON", "TCPCallOnceJSON"} /\ Pct(20) THEN [q EXCEPT ![1].bk = "bad"] ELSE q IN
         [OP0 EXCEPT !.decl = IF Pct(35) THEN R({1, 3, 4, 10, 20, 50, 200, 1000}) ELSE 0, !.hk = R({"short", "eof", "tmo", "pipe"}), !.op = "help", !.fn = f, !.msgs = ms, !.bad = bad, !.bk = R({"idtype", "idnil", "odd", "chan"}), !.cuts = LET c == R(1..4) IN [j \in 1..c |-> R({1, 2, 3, 10, 100, 1000})]]

ROp == CASE FAM = "cpack" -> RPack
         [] FAM = "cbytes" -> RBytes
         [] FAM = "cread" -> RRead
         [] FAM = "chelp" -> RHelp
         [] FAM = "cmix" -> LET z == R(1..4) IN IF z = 1 THEN RPack ELSE IF z = 2 THEN RBytes ELSE IF z = 3 THEN RRead ELSE IF Pct(80) THEN RPack ELSE [RHelp EXCEPT !.fn = "WriteJSON", !.bad = 0]

RScn(i) == LET n == R(1..6) IN
  [id |-> i, fam |-> FAM, seed |-> R(0..9999), y |-> IF FAM = "cmix" THEN R({1, 2, 3, 5}) ELSE 0, par |-> FAM = "cmix", ops |-> [j \in 1..n |-> ROp]]

-----------------------------------------------------------------------------
(* complete enumerations *)

Q == TIER = "quick"
XPack ==
  LET S == {[OP0 EXCEPT !.op = "pack", !.fn = f, !.mar = m, !.id = i, !.hk = h, !.bk = b, !.n = 9, !.tail = 5] :
               f \in PackFns, m \in Mars, i \in IF Q THEN {7, MIN32} ELSE Ids, h \in Hdrs \ {"h16"}, b \in {"s", "nil", "empty", "bad"}} IN
  {o \in S : (o.bk = "bad" => o.mar \notin {"yaml", "toml"}) /\ (Q => (o.id = 7 \/ o.hk = "simple") /\ (o.hk \in {"many", "num"} => o.mar = "json" /\ o.bk = "s"))}
(* every body size up to a bound *)
XSize == {[OP0 EXCEPT !.op = "pack", !.fn = f, !.mar = m, !.id = 7, !.hk = "simple", !.bk = "s", !.n = k, !.tail = 5] :
             f \in {"Packx.Pack", "Packx.PackWithBody"}, m \in IF Q THEN {"json"} ELSE Mars, k \in IF Q THEN {990 + 3 * j : j \in 0..20} ELSE 0..1200}
(* sizes around the limits of shorter length fields *)
XBig == {[OP0 EXCEPT !.op = "pack", !.fn = f, !.mar = "json", !.id = 7, !.hk = h, !.bk = "s", !.n = k, !.tail = 5] :
             f \in {"Packx.Pack", "Packx.PackWithBody", "Message.Pack"}, h \in {"simple"}, k \in {100, 127, 128, 200, 240, 256, 32700, 32768, 65400, 65535, 65536, 131072, 1048576, 16777300}}
        \cup {[OP0 EXCEPT !.op = "pack", !.fn = f, !.mar = "json", !.id = 7, !.hk = h, !.bk = "s", !.n = 9, !.tail = 5] : f \in {"Packx.Pack", "Packx.PackWithBody", "Message.Pack"}, h \in {"h16", "h24"}}
(* every combination of length fields with every amount of bytes actually there *)
XL == IF Q THEN {-1, MIN32, 0, 2, 4, 2147483647} ELSE {-1, -12, MIN32, 0, 1, 2, 3, 4, 5, 12, 64, 2147483635, 2147483647}
XLen == {[OP0 EXCEPT !.op = "bytes", !.decl = d, !.hl = h, !.bl = b, !.tot = t, !.hk = k, !.id = 300] :
             d \in {12 + h + b : h \in {0, 2, 4}, b \in {0, 2, 4}} \cup {-1, MIN32, 0, 3, 4, 8, 11, 2147483647}, h \in XL, b \in XL,
             t \in IF Q THEN {0, 3, 4, 8, 15, 16, 18, 20, 22} ELSE 0..27, k \in IF Q THEN {"empty"} ELSE {"empty", "null", "text"}}
(* every way to read a short stream in up to three pieces, cut off after every byte *)
M1 == [OP0 EXCEPT !.op = "pack", !.id = 7, !.hk = "hl0", !.bk = "nil"]
M2 == [OP0 EXCEPT !.op = "pack", !.id = -1, !.hk = "none", !.bk = "nil"]
Read(f, q, c, t, e, mx) == [OP0 EXCEPT !.op = "read", !.fn = f, !.msgs = q, !.cuts = c, !.tot = t, !.eof = e, !.max = mx]
XCut == {Read(f, <<M1, M2>>, <<a, b, 1000>>, 0, e, mx) : f \in IF Q THEN {"Recv", "FirstBlockOfLimitMaxByte"} ELSE (ReadFns \cup LimFns) \ {ULIM},
             a \in 1..36, b \in IF Q THEN {1, 2, 3, 4, 5, 12, 16, 20, 36} ELSE 1..36, e \in BOOLEAN, mx \in {0}}
        \cup {Read(ULIM, <<M1, M2>>, c, t, e, mx) : c \in {<<>>, <<1>>, <<3>>, <<0, 1>>, <<4, 12>>}, t \in 0..36, e \in BOOLEAN, mx \in {12, 16, 50}}
        \cup {Read(f, <<M1, M2>>, c, t, e, mx) : f \in (ReadFns \cup LimFns) \ {ULIM}, c \in {<<>>, <<1>>, <<3>>, <<0, 1>>, <<4, 12>>}, t \in 0..36, e \in BOOLEAN, mx \in IF Q THEN {0} ELSE {0, 12, 16}}
XLim == {o \in {Read(f, <<M1, M2, M1>>, c, 0, e, mx) : f \in LimFns, c \in {<<>>, <<1>>, <<4, 12>>}, e \in BOOLEAN, mx \in {0, 1, 11, 12, 13, 15, 16, 17, 100}} : o.fn # ULIM \/ o.max > 0}
(* every pipe of up to three messages with every invalid argument in every place, and every partial write *)
HM == {[OP0 EXCEPT !.op = "pack", !.id = i, !.bk = b, !.n = 3] : i \in {7, MIN32}, b \in {"s", "nil"}}
Help(f, q, c, bad, k) == [OP0 EXCEPT !.op = "help", !.fn = f, !.msgs = q, !.cuts = c, !.bad = bad, !.bk = k]
XHelp == {o \in {Help("PipeJSON", q, <<>>, bad, k) : q \in {<<m>> : m \in HM} \cup {<<m, n>> : m \in HM, n \in HM} \cup {<<m, n, l>> : m \in HM, n \in HM, l \in HM},
                    bad \in 0..3, k \in {"idtype", "idnil", "odd", "chan"}} : o.bad <= Len(o.msgs) /\ (o.bad = 0 => o.bk = "odd")}
         \cup {Help("PipeJSON", [j \in 1..k |-> [OP0 EXCEPT !.op = "pack", !.id = j, !.bk = "s", !.n = 3]], <<>>, bad, "odd") : k \in {9, 10, 11, 99, 100, 101} \cup (IF Q THEN {} ELSE 4..130), bad \in {0}}
         \cup {Help("WriteConn", <<[m EXCEPT !.hk = "hl0"]>>, <<a, b, c>>, 0, "") : m \in HM, a \in 1..IF Q THEN 6 ELSE 17, b \in 1..IF Q THEN 6 ELSE 17, c \in {1, 5, 100}}
         \cup {[Help(f, <<[m EXCEPT !.hk = "hl0"]>>, c, 0, "") EXCEPT !.decl = d, !.hk = k] : f \in {"WriteConn", "WriteJSON", "PipeJSON"}, m \in HM, d \in 1..24, k \in {"short", "eof", "tmo", "pipe"}, c \in {<<>>, <<2>>, <<5, 1>>}}
         \cup {Help(f, <<m>>, <<>>, bad, "") : f \in {"WriteJSON", "TCPCallOnceJSON"}, m \in HM \cup {[m EXCEPT !.bk = "bad"] : m \in HM}, bad \in {0}}
         \cup {Help("TCPCallOnceJSON", <<m>>, <<>>, 1, "") : m \in HM}

XSet == CASE FAM = "xpack" -> XPack \cup XSize \cup XBig
          [] FAM = "xlen" -> XLen
          [] FAM = "xcut" -> XCut \cup XLim
          [] FAM = "xhelp" -> XHelp
          [] OTHER -> {}
PER == 20
Enum == LET q == SetToSeq(XSet)
            m == (Len(q) + PER - 1) \div PER IN
        [j \in 1..m |-> [id |-> j, fam |-> FAM, seed |-> j, y |-> 0, par |-> FALSE, ops |-> SubSeq(q, (j - 1) * PER + 1, IF j * PER < Len(q) THEN j * PER ELSE Len(q))]]

VARIABLES n, out
X == XSet # {}
Init == n = 0 /\ out = <<>>
Next == \/ X /\ n = 0 /\ n' = COUNT /\ \E e \in {Enum} : out' = e
        \/ ~X /\ n < COUNT /\ n' = n + 1 /\ \E s \in {RScn(BASE + n + 1)} : out' = Append(out, s)
Written == n = COUNT => ndJsonSerialize(OUT, out)
Stop == n < COUNT
=============================================================================
