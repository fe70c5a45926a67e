----------------------------- MODULE RejSampler -----------------------------
(***************************************************************************)
(* The rejection sampler as a machine that squeezes blocks of candidates   *)
(* and keeps the acceptable ones until it has Need of them.  A behaviour   *)
(* chooses how many candidates of each block are acceptable and where they *)
(* lie; the counts are the ones around which a block-wise sampler can go   *)
(* wrong (none, one, all, exactly enough, one short, one too many).        *)
(* Checked: it never holds more than Need, stops at the first moment it    *)
(* has Need, and what it holds is a prefix of all accepted values.         *)
(* Complete behaviours are concretised by the harness into XOF streams.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS BlockCand,   \* candidates in one block (168 / 1.5 = 112)
          Need, MaxBlocks, Counts, Layouts, Printing
VARIABLES ctr, seen, hist
vars == <<ctr, seen, hist>>
Min(a, b) == IF a < b THEN a ELSE b
Init == ctr = 0 /\ seen = 0 /\ hist = << >>
Around == {Need - ctr - 1, Need - ctr, Need - ctr + 1}
Choices == (Counts \cup Around) \cap (0..BlockCand)
\* after MaxBlocks - 2 blocks the stream turns generous so that the behaviour ends
Squeeze == /\ ctr < Need
           /\ \E n \in (IF Len(hist) < MaxBlocks - 3 THEN Choices ELSE {BlockCand}), lay \in Layouts :
                /\ ctr' = Min(Need, ctr + n) /\ seen' = seen + n
                /\ hist' = Append(hist, [n |-> n, lay |-> lay])
Finish == ctr = Need /\ Printing /\ PrintT("@B " \o ToJson(hist)) /\ UNCHANGED vars
Next == Squeeze \/ Finish
SumTo(j) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE hist[i].n + S(i-1) IN S(j)
Inv == /\ ctr <= Need /\ ctr = Min(Need, seen) /\ seen = SumTo(Len(hist))
       /\ (ctr = Need => hist # << >> /\ SumTo(Len(hist) - 1) < Need)      \* stopped at once
       /\ Len(hist) <= MaxBlocks
=============================================================================
