----------------------------- MODULE PureTrace ------------------------------
(***************************************************************************)
(* Operations are functions.  The state is what each call has been seen to *)
(* return; a recorded call may only return what the same call returned     *)
(* before - whoever executed it (implementation, thread, build), after     *)
(* whatever history, at whatever address.  Calls and results are numbers   *)
(* that stand for byte strings.  A call that is `good' for every possible  *)
(* history is a function of its arguments.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo
vars == <<l, memo>>
Init == l = 1 /\ memo = << >>
Step(e) ==
  IF e.op = "reset" THEN memo' = << >>
  ELSE /\ e.st = 0
       /\ \/ e.call \notin DOMAIN memo /\ memo' = (e.call :> e.res) @@ memo
          \/ e.call \in DOMAIN memo /\ memo[e.call] = e.res /\ UNCHANGED memo
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
