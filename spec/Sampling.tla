------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* SampleNTT (rejection sampling of a uniform polynomial in the NTT domain *)
(* from an XOF stream) and SamplePolyCBD_eta (FIPS 203 Alg. 7 and 8).      *)
(***************************************************************************)
EXTENDS Codec, SequencesExt

\* candidate c (0-based) of the stream s: 12-bit little-endian values
Cand(s, c) == LET t == 3 * (c \div 2) IN
              IF c % 2 = 0 THEN s[t+1] + 256 * (s[t+2] % 16) ELSE (s[t+2] \div 16) + 16 * s[t+3]
NCand(s) == 2 * (Len(s) \div 3)
\* the accepted candidates, in stream order
Accepted(s) == FoldLeft(LAMBDA acc, c : IF Len(acc) < 256 /\ Cand(s, c) < 3329 THEN Append(acc, Cand(s, c)) ELSE acc,
                        << >>, [c \in 1..NCand(s) |-> c - 1])
SampleDone(s) == Len(Accepted(s)) = 256
SampleNTT(s) == Accepted(s)

\* centred binomial: coefficient i = (sum of eta bits) - (sum of next eta bits), from 64*eta bytes
CBD(b, eta) ==
  TLCEval([i \in 1..256 |->
    LET n == 2 * eta * (i-1)
    IN IF eta = 2 THEN (BitOf(b, n) + BitOf(b, n+1) - BitOf(b, n+2) - BitOf(b, n+3)) % 3329
       ELSE (BitOf(b, n) + BitOf(b, n+1) + BitOf(b, n+2) - BitOf(b, n+3) - BitOf(b, n+4) - BitOf(b, n+5)) % 3329])
=============================================================================
