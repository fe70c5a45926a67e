------------------------------ MODULE Purity -------------------------------
(***************************************************************************)
(* Operations are pure.  Activations of operations interleave on *)
(* threads (or nest, when a signal handler calls the library); each writes *)
(* intermediate values to scratch cells and computes its result from them. *)
(* What the result then depends on is decided by where the cells live.     *)
(*   "own"     cells of the activation (the stack): results are functions  *)
(*   "static"  cells shared by all activations: one preemption reveals it  *)
(*   "cache"   a value remembered under part of the argument: revealed by  *)
(*             two calls, one after the other, with related arguments      *)
(*   "count"   something that changes after enough calls: only revealed by *)
(*             that many calls                                             *)
(*   "once"    a shared table built by the first activation that finds it   *)
(*             missing and marked as built before it is: only revealed by a *)
(*             preemption of the very first activation (Warm: not after it) *)
(* TLC shows that "own" is pure for every schedule, that each of the       *)
(* others is not, and how little is needed to see it: these needs are what *)
(* the experiments of PurityGen provide.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Place,      \* where the cells are
          NAct,       \* activations
          Cells,      \* number of scratch cells
          MaxSwitch,  \* switches from one activation to another before its end
          Warm        \* an activation has ended before the others begin
Args == {<<x, y>> : x \in 1..2, y \in 1..2}     \* two fields: a cache may look at the first only
VARIABLES arg, pc, cell, cache, count, cur, switches, res, ready
mvars == <<arg, pc, cell, cache, count, cur, switches, res, ready>>
Acts == 1..NAct
Const == <<9, 9>>
F(a) == [c \in 1..Cells |-> IF Place = "once" THEN Const ELSE a]
Owner(t) == IF Place \in {"static", "once"} THEN 0 ELSE t
Init == /\ arg \in [Acts -> Args] /\ pc = [t \in Acts |-> 0] /\ cell = [o \in 0..NAct |-> [c \in 1..Cells |-> IF Warm /\ Place = "once" THEN Const ELSE <<0, 0>>]] /\ ready = Warm
        /\ cache = << >> /\ count = 0 /\ cur = 0 /\ switches = 0 /\ res = [t \in Acts |-> << >>]
(* which activation runs next: a running one may be interrupted, at a price *)
Sched(t) == /\ pc[t] <= 2 * Cells
            /\ \/ cur = t \/ cur = 0
               \/ cur # 0 /\ cur # t /\ (IF pc[cur] > 2 * Cells THEN 0 ELSE 1) + switches <= MaxSwitch
            /\ switches' = IF cur # 0 /\ cur # t /\ pc[cur] <= 2 * Cells THEN switches + 1 ELSE switches
            /\ cur' = t
Value(t) == IF Place = "once" THEN Const
            ELSE IF Place = "cache" /\ cache # << >> /\ cache[1][1] = arg[t][1] THEN cache[1]      \* hit on the first field
            ELSE IF Place = "count" /\ count >= 2 THEN <<0, 0>> ELSE arg[t]
(* the first step of a "once" activation looks whether the table is there *)
Skip(t) == /\ Place = "once" /\ ready /\ pc[t] = 0
           /\ pc' = [pc EXCEPT ![t] = Cells] /\ UNCHANGED <<cell, res, cache, count, ready>>
Write(t) == /\ pc[t] < Cells /\ (Place = "once" => pc[t] > 0 \/ ~ready) /\ ready' = TRUE
            /\ cell' = [cell EXCEPT ![Owner(t)][pc[t] + 1] = Value(t)] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<res, cache, count>>
Read(t) == /\ pc[t] \in Cells..((2 * Cells) - 1)
           /\ res' = [res EXCEPT ![t] = Append(@, cell[Owner(t)][(pc[t] - Cells) + 1])] /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<cell, cache, count, ready>>
End(t) == /\ pc[t] = 2 * Cells /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ cache' = <<Value(t)>> /\ count' = count + 1 /\ UNCHANGED <<cell, res, ready>>
Next == (\E t \in Acts : Sched(t) /\ (Skip(t) \/ Write(t) \/ Read(t) \/ End(t))) /\ UNCHANGED arg
Spec == Init /\ [][Next]_mvars
Pure == \A t \in Acts : pc[t] > 2 * Cells => res[t] = F(arg[t])
=============================================================================
