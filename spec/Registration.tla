---------------------------- MODULE Registration ----------------------------
(* What a sequence of registration calls means: which calls are refused, and which chain of middlewares and    *)
(* handler every message gets.  Purely declarative: "in use when the handler was registered" is computed from  *)
(* the calls themselves; the anchor arithmetic the code uses for it is modelled in Anchors.tla and checked     *)
(* against this module.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A call is [op, id, u, ks, n]:                                                                               *)
(*   global n | use ks | unuse ks | add id n | any u n | hb | rwhb id | auth          (n: own middlewares)     *)

Names(prefix, i, n) == [j \in 1..n |-> prefix \o ToString(i) \o "." \o ToString(j)]

RegInit == [glob  |-> <<>>,    \* global middlewares in order
            keys  |-> <<>>,    \* keyed middlewares ordered by first Use
            used  |-> {},      \* keys in use
            ids   |-> <<>>,    \* registrations: sequence of [id, self, mid, h]
            urls  |-> <<>>,    \* registrations: sequence of [u, self, mid, h]
            hbid  |-> 0, bad |-> FALSE]

SeqToSet(q) == {q[i] : i \in 1..Len(q)}
InUse(r)    == SelectSeq(r.keys, LAMBDA k : k \in r.used)
HasID(r, id) == \E i \in 1..Len(r.ids) : r.ids[i].id = id
HasURL(r, u) == \E i \in 1..Len(r.urls) : r.urls[i].u = u

RECURSIVE UseAll(_, _), UnUseAll(_, _)
UseAll(r, ks) ==
  IF ks = <<>> \/ r.bad THEN r
  ELSE IF Head(ks) \in r.used THEN [r EXCEPT !.bad = TRUE]
  ELSE UseAll([r EXCEPT !.used = @ \cup {Head(ks)},
                        !.keys = IF Head(ks) \in SeqToSet(@) THEN @ ELSE Append(@, Head(ks))], Tail(ks))
UnUseAll(r, ks) ==
  IF ks = <<>> \/ r.bad THEN r
  ELSE IF Head(ks) \notin r.used THEN [r EXCEPT !.bad = TRUE]
  ELSE UnUseAll([r EXCEPT !.used = @ \ {Head(ks)}], Tail(ks))

AddID(r, id, self, h) ==
  IF HasID(r, id) THEN [r EXCEPT !.bad = TRUE]
  ELSE [r EXCEPT !.ids = Append(@, [id |-> id, self |-> self, mid |-> InUse(r), h |-> h])]

DropID(r, id) == [r EXCEPT !.ids = SelectSeq(@, LAMBDA x : x.id # id)]

(* The i-th call p of the program, under configuration cfg. *)
RegCall(r, p, i, cfg) ==
  LET h == "h" \o ToString(i)
      self == Names("s", i, p.n) IN
  CASE p.op = "global" -> [r EXCEPT !.glob = @ \o [j \in 1..p.n |-> "g" \o ToString(Len(r.glob) + j)]]
    [] p.op = "use"    -> UseAll(r, p.ks)
    [] p.op = "unuse"  -> UnUseAll(r, p.ks)
    [] p.op = "add"    -> AddID(r, p.id, self, h)
    [] p.op = "any"    -> IF HasURL(r, p.u) THEN [r EXCEPT !.bad = TRUE]
                          ELSE [r EXCEPT !.urls = Append(@, [u |-> p.u, self |-> self, mid |-> InUse(r), h |-> h])]
    [] p.op = "hb"     -> IF cfg.hb.on THEN [AddID(r, cfg.hb.id, <<>>, "~hb") EXCEPT !.hbid = cfg.hb.id]
                          ELSE [r EXCEPT !.hbid = cfg.hb.id]
    [] p.op = "rwhb"   -> [AddID(DropID(r, r.hbid), p.id, <<>>, h) EXCEPT !.hbid = p.id]
    [] p.op = "auth"   -> IF cfg.auth.on THEN AddID(r, cfg.auth.id, <<>>, h) ELSE r

RECURSIVE RegFold(_, _, _, _)
RegFold(r, prog, i, cfg) ==
  IF i > Len(prog) \/ r.bad THEN r ELSE RegFold(RegCall(r, prog[i], i, cfg), prog, i + 1, cfg)

RegOf(cfg) == RegFold(RegInit, cfg.prog, 1, cfg)

(* Call i is refused iff the calls before it are consistent and it is not. *)
Refused(cfg, i) ==
  LET before == RegFold(RegInit, SubSeq(cfg.prog, 1, i - 1), 1, cfg) IN
  ~before.bad /\ RegCall(before, cfg.prog[i], i, cfg).bad

KeyNames(ks) == [i \in 1..Len(ks) |-> "k" \o ks[i]]

Full(r, x) == r.glob \o KeyNames(x.mid) \o x.self \o <<x.h>>

(* The chain of a raw connection and of a message under OnMessage: everything ever registered, then the callback. *)
Everything(r, last) == r.glob \o KeyNames(r.keys) \o <<last>>

(* How a message [id, rt, u] is routed. *)
ByURL(rt)     == rt = "url"
ByNothing(rt) == rt \in {"other", "urlnum"}   \* unknown routing type, or a URL pattern that is not a string

ChainOf1(r, cfg, m) ==
  IF cfg.onmsg THEN Everything(r, "om")
  ELSE IF ByNothing(m.rt) THEN <<>>
  ELSE IF ByURL(m.rt)
       THEN LET xs == SelectSeq(r.urls, LAMBDA x : x.u = m.u) IN
            IF xs = <<>> THEN <<>> ELSE Full(r, xs[1])
       ELSE LET xs == SelectSeq(r.ids, LAMBDA x : x.id = m.id) IN
            IF xs = <<>> THEN <<>>
            ELSE IF \/ cfg.hb.on /\ m.id = r.hbid /\ ~cfg.hb.thru
                    \/ cfg.auth.on /\ m.id = cfg.auth.id /\ ~cfg.auth.thru
                 THEN <<xs[1].h>>
                 ELSE Full(r, xs[1])

(* a message whose header cannot be read has no routing information but its id *)
Unreadable == {"json", "jarr", "hneg", "hbig", "short", "neg", "junk", "stuff"}

ChainOf(r, cfg, m) ==
  IF m.mal \in Unreadable /\ m.rt # "none" THEN ChainOf1(r, cfg, [m EXCEPT !.rt = "none"]) ELSE ChainOf1(r, cfg, m)
=============================================================================
