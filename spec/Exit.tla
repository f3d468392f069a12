-------------------------------- MODULE Exit --------------------------------
(* The end of the process.  State: has a termination signal been sent, which function is running, how many have    *)
(* returned, was an ordinary end of the process asked for.                                                          *)
EXTENDS Integers, Sequences

XInit == [sig |-> FALSE, cur |-> 0, done |-> 0, fin |-> FALSE, over |-> FALSE]

W(c, why) == IF c THEN {} ELSE {<<{"C23"}, why>>}

(* n: how many functions were registered *)
XGuards(n, s, e) ==
  CASE e.e = "hb" -> W(s.sig, "a function runs without a signal") \cup W(e.i = s.done + 1 /\ s.cur = 0, "a function runs out of order, again, or beside another")
    [] e.e = "he" -> W(e.i = s.cur, "a function returns that was not running")
    [] e.e = "exit" ->
         W(s.sig \/ s.fin \/ e.alive, "the process ends without a signal")
         \cup (IF s.sig /\ ~s.fin
               THEN W(~e.alive, "the process does not exit on a signal") \cup W(e.alive \/ s.done = n, "the process exits before every function has returned")
                    \cup W(e.alive \/ s.done # n \/ e.code = 0, "the exit status is not 0")
               ELSE {})
    [] e.e = "stuck" -> W(FALSE, "BeforeExit does not return")
    [] e.e \in {"crash", "hang"} -> {<<{"ALL"}, e.e>>}
    [] OTHER -> {}

XApply(s, e) ==
  CASE e.e = "sig" -> [s EXCEPT !.sig = TRUE]
    [] e.e = "hb" -> [s EXCEPT !.cur = e.i]
    [] e.e = "he" -> [s EXCEPT !.cur = 0, !.done = e.i]
    [] e.e = "finish" -> [s EXCEPT !.fin = TRUE]
    [] OTHER -> [s EXCEPT !.over = TRUE]
=============================================================================
