------------------------------- MODULE Tables -------------------------------
\* The rounding tables of the specification, for every value, as TLC computes them.
EXTENDS Codec, Json, Sequences
VARIABLE n
Jobs == <<<<"C", 1>>, <<"C", 4>>, <<"C", 5>>, <<"C", 10>>, <<"C", 11>>, <<"D", 1>>, <<"D", 4>>, <<"D", 5>>, <<"D", 10>>, <<"D", 11>>>>
Row(j) == IF j[1] = "C" THEN [x \in 1..3329 |-> Compress1(x - 1, j[2])] ELSE [y \in 1..Pow2(j[2]) |-> Decompress1(y - 1, j[2])]
Init == n = 1
Next == n <= Len(Jobs) /\ PrintT("@B " \o ToJson([f |-> Jobs[n][1], d |-> Jobs[n][2], v |-> Row(Jobs[n])])) /\ n' = n + 1
=============================================================================
