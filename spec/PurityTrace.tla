--------------------------- MODULE PurityTrace ----------------------------
(***************************************************************************)
(* Recorded calls and returns of the real code.  Activations open and      *)
(* close in any interleaving (threads, a signal handler); a return must    *)
(* give what the same call gave before, in whatever process, thread, place *)
(* and order.  Calls and results are numbers that stand for byte strings.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo, open
Init == l = 1 /\ memo = << >> /\ open = << >>
Return(e) == /\ e.a \in DOMAIN open
             /\ memo' = (IF open[e.a] \in DOMAIN memo THEN memo ELSE (open[e.a] :> e.res) @@ memo)
             /\ memo'[open[e.a]] = e.res
             /\ open' = [a \in DOMAIN open \ {e.a} |-> open[a]]
Step(e) == CASE e.op = "b" -> e.a \notin DOMAIN open /\ open' = (e.a :> e.call) @@ open /\ UNCHANGED memo
             [] e.op = "e" -> Return(e)
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
