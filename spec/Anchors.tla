------------------------------- MODULE Anchors -------------------------------
(* How the code decides which keyed middlewares a handler gets (anchor.go, mux.go, tcpx.go Use/UnUse/AddHandler/Any): *)
(* one counter numbers all registration calls; every key remembers the numbers of its Use and UnUse calls, every     *)
(* handler its own number, and a middleware belongs to a handler whose number lies in one of its periods.             *)
(* Checked against the declarative meaning in Registration.tla for every program of up to DEPTH calls.                *)
EXTENDS Registration, IOUtils

BUG   == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE ""
TIER  == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
DEPTH == IF TIER = "quick" THEN 7 ELSE 9

CFG == [hb |-> [on |-> FALSE, id |-> 1392, thru |-> FALSE], auth |-> [on |-> FALSE, id |-> 1393, thru |-> FALSE], onmsg |-> FALSE]
KEYS == {"a", "b"}
CALLS == {[op |-> o, id |-> 0, u |-> "", ks |-> q, n |-> 0] : o \in {"use", "unuse"}, q \in {<<"a">>, <<"b">>, <<"a", "b">>}}
         \cup {[op |-> "add", id |-> i, u |-> "", ks |-> <<>>, n |-> i % 2] : i \in {1, 2}}
         \cup {[op |-> "any", id |-> 0, u |-> u, ks |-> <<>>, n |-> 0] : u \in {"/x"}}

VARIABLES k,      \* calls made
          r,      \* what they mean (Registration)
          seed,   \* mux.indexSeed
          anc,    \* key -> [st, en]: the anchor of the key
          order,  \* mux.MiddlewareAnchors: keys in order of appearance
          hnd,    \* registered handlers: <<"id"|"url", which, number>>
          ref     \* the last call was refused
vars == <<k, r, seed, anc, order, hnd, ref>>

Contains(a, h) ==
  IF Len(a.st) = Len(a.en)
  THEN IF BUG = "lastperiod" THEN Len(a.st) > 0 /\ a.st[Len(a.st)] <= h /\ a.en[Len(a.en)] >= h
       ELSE \E i \in 1..Len(a.st) : a.st[i] <= h /\ a.en[i] >= h
  ELSE h >= a.st[Len(a.st)] \/ \E i \in 1..Len(a.en) : a.st[i] <= h /\ a.en[i] >= h

St0 == [seed |-> seed, anc |-> anc, order |-> order, ref |-> FALSE]
UseOne(s, x) ==
  IF s.ref THEN s
  ELSE LET a == s.anc[x] IN
       IF Len(a.en) < Len(a.st) THEN [s EXCEPT !.ref = TRUE, !.seed = @ + 1]
       ELSE [s EXCEPT !.seed = @ + 1, !.anc[x].st = IF BUG = "reuse" /\ a.st # <<>> THEN @ ELSE Append(@, s.seed + 1),
                      !.order = IF x \in SeqToSet(@) THEN @ ELSE Append(@, x)]
UnUseOne(s, x) ==
  IF s.ref THEN s
  ELSE LET a == s.anc[x] IN
       IF x \notin SeqToSet(s.order) \/ Len(a.en) >= Len(a.st) THEN [s EXCEPT !.ref = TRUE]
       ELSE [s EXCEPT !.seed = @ + 1, !.anc[x].en = Append(@, s.seed + 1)]
RECURSIVE All(_, _, _)
All(F(_, _), s, q) == IF q = <<>> THEN s ELSE All(F, F(s, Head(q)), Tail(q))

Init == k = 0 /\ r = RegInit /\ seed = 0 /\ anc = [x \in KEYS |-> [st |-> <<>>, en |-> <<>>]] /\ order = <<>> /\ hnd = {} /\ ref = FALSE

Call(p) ==
  /\ k < DEPTH /\ ~ref /\ ~r.bad
  /\ k' = k + 1
  /\ r' = RegCall(r, p, k + 1, CFG)
  /\ IF p.op \in {"use", "unuse"}
     THEN \E s \in {IF p.op = "use" THEN All(UseOne, St0, p.ks) ELSE All(UnUseOne, St0, p.ks)} :
            seed' = s.seed /\ anc' = s.anc /\ order' = s.order /\ ref' = s.ref /\ hnd' = hnd
     ELSE LET w == IF p.op = "add" THEN <<"id", p.id>> ELSE <<"url", p.u>> IN
          IF \E h \in hnd : <<h[1], h[2]>> = w THEN ref' = TRUE /\ UNCHANGED <<seed, anc, order, hnd>>
          ELSE seed' = seed + 1 /\ hnd' = hnd \cup {<<w[1], w[2], seed + 1>>} /\ ref' = FALSE /\ UNCHANGED <<anc, order>>
Next == \E p \in CALLS : Call(p)
Spec == Init /\ [][Next]_vars

MidOf(h) == SelectSeq(order, LAMBDA x : Contains(anc[x], h[3]))
Meant(h) == LET q == IF h[1] = "id" THEN SelectSeq(r.ids, LAMBDA x : x.id = h[2]) ELSE SelectSeq(r.urls, LAMBDA x : x.u = h[2]) IN q[1].mid

SameRefusals == ref = r.bad
SameChains == ~ref => /\ Cardinality(hnd) = Len(r.ids) + Len(r.urls)
                      /\ \A h \in hnd : MidOf(h) = Meant(h)
                      /\ order = r.keys
=============================================================================
