----------------------------- MODULE SystemTrace ----------------------------
(***************************************************************************)
(* A recorded history of the real library against KemSystem.  Every        *)
(* observed byte string was replaced by a number (equal bytes, equal       *)
(* number); `val' is what each term was seen to be.  A step is allowed iff *)
(* every observed value continues to be the value of its term and of no    *)
(* other term, the call returned 0 and drew exactly what the model draws.  *)
(* A "reset" event starts a new history.                                   *)
(***************************************************************************)
EXTENDS KemSystem, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, val
tvars == <<st, hist, outs, l, val>>

\* fold of the observed (term, number) pairs into val: <<consistent, val>>
Bind(v, terms, ids) ==
  FoldLeft(LAMBDA acc, i : IF ~ acc[1] THEN acc
             ELSE IF \A p \in acc[2] : (p[1] = terms[i]) <=> (p[2] = ids[i]) THEN <<TRUE, acc[2] \cup {<<terms[i], ids[i]>>}>>
             ELSE <<FALSE, {}>>,
           <<TRUE, v>>, [i \in 1..Len(ids) |-> i])
TInit == st = St0 /\ hist = << >> /\ outs = << >> /\ l = 1 /\ val = {}
TStep(e) ==
  IF e.op = "reset" THEN st' = St0 /\ val' = {}
  ELSE \E r \in {Apply(st, e)} :
         /\ Len(r.outs) = Len(e.ids) /\ e.st = 0 /\ e.draw = r.draw
         /\ \E v \in {Bind(val, r.outs, e.ids)} : v[1] /\ val' = v[2]
         /\ st' = r.st
TNext == l <= Len(Trace) /\ TStep(Trace[l]) /\ l' = l + 1 /\ UNCHANGED <<hist, outs>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
