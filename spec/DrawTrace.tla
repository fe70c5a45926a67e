------------------------------ MODULE DrawTrace ----------------------------
(***************************************************************************)
(* Histories of randomised calls on one stream of random bytes, each      *)
(* followed by the deterministic calls on the bytes the randomised ones    *)
(* have to have drawn: key generation 64, encapsulation 32, decapsulation  *)
(* none, in order, each byte once.  The state is how far the stream has    *)
(* been used and what the history returned.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pos, res
vars == <<l, pos, res>>
Init == l = 1 /\ pos = 0 /\ res = << >>
Taken(e) == 64 * e.keypairs + 32 * e.encs
Step(e) ==
  CASE e.op = "randomised"    -> /\ e.st = 0 /\ pos' = Taken(e) /\ e.pos = pos'
                                 /\ res' = <<e.call, e.res>>
    [] e.op = "deterministic" -> /\ e.st = 0 /\ pos = Taken(e)            \* of the pieces [0, pos) of the stream
                                 /\ e.pos = 0 /\ res = <<e.call, e.res>> /\ pos' = 0 /\ res' = << >>
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
