-------------------------------- MODULE Codec --------------------------------
(* What every call of the pack, unpack, accessor, reader and client-helper functions may return.                   *)
(* Guards(e): the violated expectations of one recorded call, as <<properties, reason>>.                            *)
EXTENDS Wire, FiniteSets

When(c, tags, why) == IF c THEN {<<tags, why>>} ELSE {}

HelperPack == {"PackHeartbeat", "PackStuff"}

PackGuards(e) ==
  LET T == IF e.fn \in HelperPack THEN {"C01", "C24"} ELSE {"C01"} IN
  When(e.pan, T, e.fn \o " panics") \cup
  When(~e.keep, T, e.fn \o " changes the message, headers or body it was given") \cup
  IF e.bad THEN When(~e.pan /\ e.ok, T, e.fn \o " accepts what cannot be marshalled")
  ELSE IF e.pan THEN {}
  ELSE IF ~e.ok THEN {<<T, e.fn \o " fails on a valid message">>}
  ELSE IF ~Block(e.out) \/ First(e.out) # e.out THEN {<<T, e.fn \o " does not produce exactly one well-formed block">>}
  ELSE When(Id(e.out) # e.id, T, e.fn \o ": message id") \cup
       When(Body(e.out) # e.bb, T, e.fn \o ": body") \cup
       When(~e.heq, T, e.fn \o ": header") \cup
       When(Encode(e.id, Header(e.out), e.bb) # e.out, T, e.fn \o ": layout")

(* the value an accessor must return on bytes that start with a well-formed block *)
Value(fn, b, r) ==
  CASE fn = "LengthOf" -> r.n = Decl(b)
    [] fn \in {"MessageIDOf", "Unpack"} -> r.n = Id(b)
    [] fn = "HeaderLengthOf" -> r.n = HLen(b)
    [] fn = "BodyLengthOf" -> r.n = BLen(b)
    [] fn = "HeaderBytesOf" -> r.b = Header(b)
    [] fn = "BodyBytesOf" -> r.b = Body(b)
    [] fn = "FirstBlockOfBytes" -> r.b = First(b)
    [] fn = "UnPackFromReader" -> r.n = Id(b) /\ r.b = Body(b)
    [] OTHER -> TRUE

(* whatever the bytes: a value that is returned is one the bytes really hold *)
Held(fn, b, r) ==
  LET n == RLen(b) IN
  CASE fn = "LengthOf" -> n >= 4 /\ r.n = Decl(b)
    [] fn = "MessageIDOf" -> n >= 8 /\ r.n = Id(b)
    [] fn = "HeaderLengthOf" -> n >= 12 /\ r.n = HLen(b)
    [] fn = "BodyLengthOf" -> n >= 16 /\ r.n = BLen(b)
    [] fn = "HeaderBytesOf" -> n >= 12 /\ HLen(b) >= 0 /\ HLen(b) <= n - 16 /\ r.b = Header(b)
    [] fn = "BodyBytesOf" -> n >= 16 /\ HLen(b) >= 0 /\ HLen(b) <= n - 16 /\ BLen(b) >= 0 /\ BLen(b) <= n - 16 - HLen(b) /\ r.b = Body(b)
    [] fn = "Bind" -> n >= 16 /\ HLen(b) >= 0 /\ HLen(b) <= n - 16 /\ BLen(b) >= 0 /\ BLen(b) <= n - 16 - HLen(b)
    [] fn = "FirstBlockOfBytes" -> n >= 4 /\ Decl(b) >= 0 /\ Decl(b) <= n - 4 /\ r.b = First(b)
    [] fn = "Unpack" -> n >= 16 /\ Decl(b) >= 12 /\ Decl(b) <= n - 4 /\ HLen(b) >= 0 /\ HLen(b) <= Decl(b) - 12 /\ BLen(b) >= 0 /\ BLen(b) <= Decl(b) - 12 - HLen(b) /\ r.n = Id(b)
    [] fn = "UnPackFromReader" -> n >= 16 /\ Decl(b) >= 12 /\ Decl(b) <= n - 4 /\ HLen(b) >= 0 /\ HLen(b) <= Decl(b) - 12 /\ BLen(b) >= 0 /\ BLen(b) <= Decl(b) - 12 - HLen(b)
                                   /\ r.n = Id(b) /\ r.b = Body(b)
    [] OTHER -> TRUE

AccGuards(e) ==
  LET wf == Block(e.b) /\ e.hj IN
  When(~e.keep, {"C01"}, "an accessor changes the bytes it was given") \cup
  UNION {LET r == e.r[j] IN
         IF r.pan THEN {<<IF wf THEN {"C01", "C03"} ELSE {"C03"}, r.fn \o " panics">>}
         ELSE IF r.ok /\ ~Held(r.fn, e.b, r) THEN {<<IF wf THEN {"C01", "C03"} ELSE {"C03"}, r.fn \o " returns what the bytes do not hold">>}
         ELSE IF r.ok /\ r.und THEN {<<{"C01", "C03"}, r.fn \o " accepts a body no value can be decoded from">>}
         ELSE IF ~wf \/ (~e.packed /\ r.fn \in {"Unpack", "Bind"}) THEN {}
         ELSE IF ~r.ok THEN {<<{"C01"}, r.fn \o " fails on a well-formed block">>}
         ELSE When(~r.eq \/ ~Value(r.fn, e.b, r), {"C01"}, r.fn \o " returns something else than was packed")
         : j \in 1..Len(e.r)}

MAXREADS == 20
ReadGuards(e) ==
  LET f == Frames(e.s, e.max, MAXREADS)
      T == {"C02", "C03"} \cup (IF e.max > 0 THEN {"C04"} ELSE {}) \cup (IF e.fn = "Recv" THEN {"C24"} ELSE {}) IN
  When(e.pan, T, e.fn \o " panics") \cup
  IF e.pan THEN {}
  ELSE When(e.got # f, T, e.fn \o (IF Len(e.got) > Len(f) THEN " returns more blocks than the stream holds"
                                   ELSE IF Len(e.got) < Len(f) THEN " misses a block of the stream"
                                   ELSE " returns a block that differs from the stream")) \cup
       When(Len(f) < MAXREADS /\ ~e.err, T, e.fn \o ": no error at the end of the stream")

HelpGuards(e) ==
  When(e.pan, {"C24"}, e.fn \o " panics") \cup
  IF e.pan THEN {}
  ELSE IF e.bad THEN When(e.ok, {"C24"}, e.fn \o " accepts invalid arguments") \cup
                     When(e.wrote # <<>>, {"C24"}, e.fn \o " writes although its arguments are invalid")
  ELSE When(~e.ok /\ ~e.failed, {"C24"}, e.fn \o " fails") \cup
       When(e.ok /\ e.wrote # e.exp, {"C24"}, e.fn \o " does not write exactly the messages") \cup
       When(~e.ok /\ (RLen(e.wrote) > RLen(e.exp) \/ Slice(e.exp, 0, RLen(e.wrote)) # e.wrote), {"C24"}, e.fn \o " has written something else before it failed") \cup
       When(~e.closed, {"C24"}, e.fn \o " leaves its connection open")

CodecGuards(e) ==
  CASE e.e = "pack" -> PackGuards(e)
    [] e.e = "acc" -> AccGuards(e)
    [] e.e = "read" -> ReadGuards(e)
    [] e.e = "help" -> HelpGuards(e)
    [] e.e = "still" -> When(~e.ok, {"C01"}, "a block packed earlier is changed by later calls")
    [] e.e \in {"crash", "hang"} -> {<<{"ALL"}, e.e>>}
=============================================================================
