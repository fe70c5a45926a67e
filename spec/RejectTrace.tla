---------------------------- MODULE RejectTrace -----------------------------
(***************************************************************************)
(* Decapsulation as compare-and-select.  A ciphertext is a row of NCells   *)
(* cells; a pattern says for each cell whether it differs from what the    *)
(* re-encryption gives, and by which of two non-zero differences.  The     *)
(* implementation may fold the comparison in any order (Fold) as long as   *)
(* the verdict is the disjunction; the harness lays the cells onto the     *)
(* real ciphertext in several ways and reports the class of the result:    *)
(*   "acc" the encapsulated secret, "rej" J(z || c), "oth" anything else.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NCells, Printing
Pattern == [1..NCells -> 0..2]
Differs(p) == \E i \in 1..NCells : p[i] # 0
Verdict(p) == IF Differs(p) THEN "rej" ELSE "acc"

VARIABLES l, cell, acc, pat
vars == <<l, cell, acc, pat>>
\* ---- the comparison as a machine, for every pattern
MInit == l = 0 /\ cell = 0 /\ acc = FALSE /\ pat \in Pattern
MNext == \/ cell < NCells /\ cell' = cell + 1 /\ acc' = (acc \/ pat[cell + 1] # 0) /\ UNCHANGED <<l, pat>>
         \/ cell = NCells /\ l = 0 /\ Printing /\ PrintT("@B " \o ToJson(pat)) /\ l' = 1 /\ UNCHANGED <<cell, acc, pat>>
MInv == cell = NCells => (IF acc THEN "rej" ELSE "acc") = Verdict(pat)
\* ---- recorded decapsulations
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ cell = 0 /\ acc = FALSE /\ pat = << >>
\* nd: number of bytes in which the presented ciphertext differs from the re-encrypted one
Ok(e) == /\ e.st = 0
         /\ IF "p" \in DOMAIN e THEN e.cls = Verdict(e.p) /\ ((e.nd > 0) <=> Differs(e.p))
            ELSE e.cls = IF e.nd > 0 THEN "rej" ELSE "acc"
Next == l <= Len(Trace) /\ Ok(Trace[l]) /\ l' = l + 1 /\ UNCHANGED <<cell, acc, pat>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
