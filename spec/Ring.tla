-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Z_q and R_q = Z_q[X]/(X^256+1), q = 3329, and its NTT domain (FIPS 203  *)
(* 4.3).  A polynomial is a 256-tuple of integers 0..q-1, coefficient j at *)
(* index j+1.  The products formed stay below 2^31 (3328^2 * 2).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, RingTables, SequencesExt

Q == 3329
ZeroPoly == [i \in 1..256 |-> 0]

PolyAdd(a, b) == TLCEval([i \in 1..256 |-> (a[i] + b[i]) % Q])
PolySub(a, b) == TLCEval([i \in 1..256 |-> (a[i] - b[i]) % Q])
PolyRed(a) == TLCEval([i \in 1..256 |-> a[i] % Q])

\* definition of the product in R_q (negacyclic convolution)
SchoolMul(a, b) ==
  TLCEval([n \in 1..256 |->
     FoldLeft(LAMBDA s, i : (s + (IF i <= n THEN a[i] * b[n - i + 1] ELSE (0 - a[i]) * b[257 + n - i])) % Q,
              0, [i \in 1..256 |-> i])])

\* one Cooley-Tukey layer: blocks of 2*len, zeta index 128/len + block (FIPS 203 Alg. 9)
Blk(i, len) == (i-1) \div (2*len)
Lower(i, len) == ((i-1) % (2*len)) < len
NttLayer(a, len) ==
  TLCEval([i \in 1..256 |->
     IF Lower(i, len) THEN (a[i] + ZetaT[(128 \div len) + Blk(i, len) + 1] * a[i + len]) % Q
                      ELSE (a[i - len] - ZetaT[(128 \div len) + Blk(i, len) + 1] * a[i]) % Q])
NTT(a) == FoldLeft(NttLayer, a, <<128, 64, 32, 16, 8, 4, 2>>)

\* one Gentleman-Sande layer: zeta index 256/len - 1 - block (Alg. 10)
InvLayer(a, len) ==
  TLCEval([i \in 1..256 |->
     IF Lower(i, len) THEN (a[i] + a[i + len]) % Q
                      ELSE (ZetaT[(256 \div len) - Blk(i, len)] * (a[i] - a[i - len])) % Q])
InvNTT(a) == FoldLeft(LAMBDA b, n : TLCEval([i \in 1..256 |-> (b[i] * 3303) % Q]),
                      FoldLeft(InvLayer, a, <<2, 4, 8, 16, 32, 64, 128>>), <<0>>)

\* product in the NTT domain: 128 products in Z_q[X]/(X^2 - gamma_i) (Alg. 11, 12)
BaseMul(a, b) ==
  TLCEval([i \in 1..256 |->
     IF i % 2 = 1 THEN (a[i] * b[i] + ((a[i+1] * b[i+1]) % Q) * GammaT[((i-1) \div 2) + 1]) % Q
                  ELSE (a[i-1] * b[i] + a[i] * b[i-1]) % Q])

\* vectors and matrices are tuples of polynomials
VecNTT(v) == [i \in DOMAIN v |-> NTT(v[i])]
Dot(u, v) == FoldLeft(LAMBDA s, i : PolyAdd(s, BaseMul(u[i], v[i])), ZeroPoly, [i \in DOMAIN u |-> i])
=============================================================================
