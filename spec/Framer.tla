------------------------------- MODULE Framer -------------------------------
(* From a client's WriteConn to the server's read loop, byte by byte: WriteConn writes its buffer through a            *)
(* connection that may take any part of it at a time, the network delivers the bytes in order in pieces of any size,  *)
(* the reader (readUntil, UnpackToBlockFromReaderLimitMaxLengthOfByte) collects four bytes of length and then the      *)
(* content.  A read may return its last bytes together with the end of the stream.  Checked over all streams of a     *)
(* few messages, all limits, all cuts and all points at which the client goes away, against Wire!Frames.               *)
EXTENDS Wire, FiniteSets, IOUtils

BUG  == IF "BUG" \in DOMAIN IOEnv THEN IOEnv.BUG ELSE ""
TIER == IF "TIER" \in DOMAIN IOEnv THEN IOEnv.TIER ELSE "quick"
LENS == IF TIER = "quick" THEN {0, 1, 2} ELSE {0, 1, 2, 3, 5}
MSGS == IF TIER = "quick" THEN 2 ELSE 3
MAXS == IF TIER = "quick" THEN {0, 1} ELSE {0, 1, 2, 3}

Msg(d, j) == Cat(BE(d), IF d <= 0 THEN <<>> ELSE <<<<j, d>>>>)
Streams == UNION {{Flat([j \in 1..n |-> Msg(q[j], j)]) : q \in [1..n -> LENS \cup (IF n > 1 THEN {} ELSE {-1})]} : n \in 0..MSGS}
           \cup {Cat(Msg(1, 9), BE(-1))}

VARIABLES S, max,      \* what the client sends, and the limit of the server
          w, fin,      \* bytes accepted from WriteConn, the client has closed
          off, start, ph, out, st    \* reader: consumed, start of the block, phase, blocks returned, running or stopped
vars == <<S, max, w, fin, off, start, ph, out, st>>

Init == /\ S \in Streams /\ max \in MAXS
        /\ w = 0 /\ fin = FALSE /\ off = 0 /\ start = 0 /\ ph = "len" /\ out = <<>> /\ st = "run"

(* WriteConn: as many Write calls as it takes *)
WriteSome == /\ ~fin /\ w < RLen(S)
             /\ \E n \in 1..(RLen(S) - w) : w' = w + n
             /\ UNCHANGED <<S, max, fin, off, start, ph, out, st>>
(* the client goes away, possibly in the middle *)
Close == ~fin /\ fin' = TRUE /\ UNCHANGED <<S, max, w, off, start, ph, out, st>>

Want == IF ph = "len" THEN start + 4 ELSE start + 4 + Int32(S, start)     \* where the current read ends
Deliver(o, next) == out' = Append(out, Slice(S, start, o)) /\ start' = next /\ ph' = "len"
(* after reading up to position o; eof: the end of the stream came with the bytes *)
Got(o, eof) ==
  IF eof /\ BUG = "eofdrop" THEN off' = o /\ st' = "end" /\ UNCHANGED <<start, ph, out>>
  ELSE IF o < Want THEN off' = o /\ st' = (IF eof THEN "end" ELSE "run") /\ UNCHANGED <<start, ph, out>>
  ELSE IF ph = "len"
       THEN LET d == Int32(S, start) IN
            IF d < 0 \/ (max > 0 /\ d > max) THEN off' = o /\ st' = "bad" /\ UNCHANGED <<start, ph, out>>
            ELSE IF d = 0 THEN off' = o /\ st' = "run" /\ Deliver(o, o)
            ELSE off' = o /\ st' = "run" /\ ph' = "body" /\ UNCHANGED <<start, out>>
       ELSE LET next == IF BUG = "ahead" /\ w > o THEN o + 1 ELSE o IN off' = next /\ st' = "run" /\ Deliver(o, next)
Read == /\ st = "run"
        /\ \/ /\ off < w
              /\ \E n \in 1..(IF w < Want THEN w - off ELSE Want - off) : \E e \in BOOLEAN : (e => fin /\ off + n = w) /\ Got(off + n, e)
           \/ off >= w /\ fin /\ Got(off, TRUE)
        /\ UNCHANGED <<S, max, w, fin>>

Next == WriteSome \/ Close \/ Read
Spec == Init /\ [][Next]_vars

Sent == Slice(S, 0, w)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
OnlyBlocks == Prefix(out, Frames(Sent, max, 20))                  \* nothing incomplete, altered or beyond a refused block
AllBlocks  == (st # "run" => out = Frames(Sent, max, 20)) /\ (off = w /\ ~fin => out = Frames(Sent, max, 20))
NoWaiting  == st = "bad" => off = start + 4                      \* a refused block is refused by its length alone
Room       == RLen(Sent) = w
=============================================================================
