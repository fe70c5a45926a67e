------------------------------- MODULE CtUtil -------------------------------
(***************************************************************************)
(* Compare and conditional move.  A pair of strings of length n is given   *)
(* by the differences D of its bytes.  The machine below compares W bytes  *)
(* at a time and the rest one by one, as a vectorised implementation does; *)
(* whatever W is, its verdict must be the specification's.                 *)
(*                                                                         *)
(* Model checking (MInit) explores every string over a small alphabet;     *)
(* generation (GInit) lists every length and every pair of positions at    *)
(* which strings differ, for the harness to concretise; Init/Next accepts  *)
(* recorded calls.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS W, MaxLen, Delta
Equal(D) == \A i \in DOMAIN D : D[i] = 0
VerifyRes(D) == IF Equal(D) THEN 0 ELSE 1
\* what the destination holds: for each byte, "x" (source) or "r" (old)
CmovRes(n, b) == [i \in 1..n |-> IF b = 1 THEN "x" ELSE "r"]

VARIABLES l, D, i, acc, out, b
vars == <<l, D, i, acc, out, b>>
\* ---- the machine, for every content
MInit == /\ l = 0 /\ D \in UNION {[1..n -> Delta] : n \in 0..MaxLen} /\ i = 0 /\ acc = {} /\ b \in {0, 1}
         /\ out = [j \in DOMAIN D |-> "r"]
Step(n) == /\ i' = i + n
           /\ acc' = acc \cup ({D[j] : j \in i+1..i+n} \ {0})
           /\ out' = [j \in DOMAIN D |-> IF b = 1 /\ j \in i+1..i+n THEN "x" ELSE out[j]]
           /\ UNCHANGED <<l, D, b>>
MNext == IF i + W <= Len(D) THEN Step(W) ELSE i < Len(D) /\ Step(1)
MInv == i = Len(D) => /\ (IF acc = {} THEN 0 ELSE 1) = VerifyRes(D)
                      /\ out = CmovRes(Len(D), b)
\* ---- generation: n, and the positions of up to two differences (n = none)
GInit == \E n \in 0..MaxLen : \E p \in 0..n, q \in 0..n :
           /\ p <= q /\ l = 0 /\ D = <<n, p, q>> /\ i = 0 /\ acc = {} /\ out = << >> /\ b = 0
GNext == l = 0 /\ PrintT("@B " \o ToJson(D)) /\ l' = 1 /\ UNCHANGED <<D, i, acc, out, b>>
\* ---- recorded calls
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ D = << >> /\ i = 0 /\ acc = {} /\ out = << >> /\ b = 0
\* d: xor of the strings where it is not zero; eqx/eqr: the destination afterwards is the source / the old destination
Ok(e) == /\ e.st = 0                        \* nothing else in memory changed
         /\ CASE e.op = "verify" -> e.res = VerifyRes(e.d)
              [] e.op = "bytes"  -> /\ e.res = (IF e.a = e.b THEN 0 ELSE 1)
                                    /\ e.out = (IF e.c = 1 THEN e.b ELSE e.a)
              [] e.op = "cmov"   -> (e.b = 1 => e.eqx) /\ (e.b = 0 => e.eqr)
              [] e.op = "cmov16" -> e.out = (IF e.b = 1 THEN e.v ELSE e.r)
Next == l <= Len(Trace) /\ Ok(Trace[l]) /\ l' = l + 1 /\ UNCHANGED <<D, i, acc, out, b>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
