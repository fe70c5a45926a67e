---------------------------- MODULE PurityGen -----------------------------
(***************************************************************************)
(* Experiments on the purity of operations (see Purity): chains of calls,  *)
(* each related to its predecessor and placed after it or, preempting it,  *)
(* inside it; the harness chooses bytes, this module the shape.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Len0
Ops == {"keypair", "enc", "dec"}
Rels == {"same", "near", "other"}      \* the same arguments; differing in one field; any
Bufs == {"reuse", "move", "chain"}     \* same addresses; new ones; the predecessor's output buffers
VARIABLES x, fin
Step == [op : Ops, rel : Rels, buf : Bufs]
Init == x = << >> /\ fin = FALSE
Next == \/ Len(x) < Len0 /\ (\E s \in Step : x' = Append(x, s)) /\ UNCHANGED fin
        \/ Len(x) = Len0 /\ ~fin /\ PrintT("@B " \o ToJson(x)) /\ fin' = TRUE /\ UNCHANGED x
=============================================================================
