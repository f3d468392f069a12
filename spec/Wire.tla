-------------------------------- MODULE Wire --------------------------------
(* The wire format: byte strings, blocks, and what a reader makes of a byte stream.                             *)
(* A byte string is a run-length encoded sequence: <<value, count>> pairs, neighbours different, counts positive. *)
EXTENDS Integers, Sequences, SequencesExt

RLen(b) == FoldLeft(LAMBDA a, r : a + r[2], 0, b)

(* bytes lo+1 .. hi of b *)
Slice(b, lo, hi) ==
  FoldLeft(LAMBDA a, r :
             LET f == IF a.at < lo THEN lo ELSE a.at
                 t == IF a.at + r[2] < hi THEN a.at + r[2] ELSE hi IN
             [at |-> a.at + r[2], out |-> IF t > f THEN Append(a.out, <<r[1], t - f>>) ELSE a.out],
           [at |-> 0, out |-> <<>>], b).out
Drop(b, n) == Slice(b, n, RLen(b))

Norm(b) == FoldLeft(LAMBDA a, r : IF r[2] = 0 THEN a
                                  ELSE IF a # <<>> /\ a[Len(a)][1] = r[1] THEN [a EXCEPT ![Len(a)] = <<@[1], @[2] + r[2]>>]
                                  ELSE Append(a, r), <<>>, b)
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a)][1] = b[1][1] THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
             ELSE a \o b
Flat(ss) == FoldLeft(LAMBDA a, b : Cat(a, b), <<>>, ss)

RECURSIVE Expand(_)
Expand(b) == IF b = <<>> THEN <<>> ELSE IF b[1][2] = 1 THEN <<b[1][1]>> \o Expand(Tail(b)) ELSE <<b[1][1]>> \o Expand(<<<<b[1][1], b[1][2] - 1>>>> \o Tail(b))

(* the signed 32-bit big-endian number at offset o *)
Int32(b, o) == LET q == Expand(Slice(b, o, o + 4)) IN
               (IF q[1] > 127 THEN q[1] - 256 ELSE q[1]) * 16777216 + q[2] * 65536 + q[3] * 256 + q[4]
BE(n) == LET m == n % 65536
             h == n \div 65536
             hh == IF h < 0 THEN h + 65536 ELSE h IN
         Norm(<< <<hh \div 256, 1>>, <<hh % 256, 1>>, <<m \div 256, 1>>, <<m % 256, 1>> >>)

-----------------------------------------------------------------------------
(* Blocks: length (not counting itself), id, header length, body length, header, body *)

Decl(b) == Int32(b, 0)
Id(b)   == Int32(b, 4)
HLen(b) == Int32(b, 8)
BLen(b) == Int32(b, 12)

(* b starts with a well-formed block *)
Block(b) == LET n == RLen(b) IN
  /\ n >= 16
  /\ LET d == Decl(b)
         h == HLen(b)
         l == BLen(b) IN
     d >= 12 /\ d <= n - 4 /\ h >= 0 /\ l >= 0 /\ h <= d /\ l <= d /\ 12 + h + l = d
Header(b) == Slice(b, 16, 16 + HLen(b))
Body(b)   == Slice(b, 16 + HLen(b), 16 + HLen(b) + BLen(b))
First(b)  == Slice(b, 0, 4 + Decl(b))

(* the block of a message *)
Encode(id, hdr, body) == Flat(<<BE(12 + RLen(hdr) + RLen(body)), BE(id), BE(RLen(hdr)), BE(RLen(body)), hdr, body>>)

(* What a reader returns of a byte stream: the complete blocks in order, up to the first that is negative, larger   *)
(* than max (max > 0, counting the declared length) or incomplete.  Each block is returned with its length field.  *)
RECURSIVE Frames(_, _, _)
Frames(s, max, k) ==
  IF k = 0 \/ RLen(s) < 4 THEN <<>>
  ELSE LET d == Decl(s) IN
       IF d < 0 \/ (max > 0 /\ d > max) \/ RLen(s) - 4 < d THEN <<>>
       ELSE <<Slice(s, 0, 4 + d)>> \o Frames(Drop(s, 4 + d), max, k - 1)

ASSUME /\ BE(-2) = <<<<255, 3>>, <<254, 1>>>> /\ BE(1) = <<<<0, 3>>, <<1, 1>>>>
       /\ \A n \in {0, 1, -1, 255, 256, 65535, 65536, -65536, 2147483647, -2147483647 - 1, 16909060} : Int32(BE(n), 0) = n
       /\ LET e == Encode(-5, <<<<9, 3>>>>, <<<<9, 2>>, <<1, 1>>>>) IN
          Block(e) /\ First(e) = e /\ Header(e) = <<<<9, 3>>>> /\ Body(e) = <<<<9, 2>>, <<1, 1>>>> /\ Id(e) = -5
          /\ Frames(Flat(<<e, e, Slice(e, 0, 15)>>), 0, 9) = <<e, e>>
=============================================================================
