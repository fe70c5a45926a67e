------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Keccak-f[1600] and the sponge functions of FIPS 202, as executable      *)
(* TLA+.  A state is a tuple of 100 limbs of 16 bits: limb 4*(x+5*y)+j+1   *)
(* is bits 16j..16j+15 of lane (x,y).  16-bit limbs because TLC integers   *)
(* are 32-bit Java ints: 0xFFFF * 2^15 is the largest product formed.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise, FiniteSets, SequencesExt

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>

\* rotation offsets of lane (x,y) at index x+5*y+1 (FIPS 202 Table 2); KeccakTables.tla re-derives them
RhoOff == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>

\* round constants, low limb first (FIPS 202 3.2.5); KeccakTables.tla re-derives them from the LFSR
RC == <<
  <<1, 0, 0, 0>>,
  <<32898, 0, 0, 0>>,
  <<32906, 0, 0, 32768>>,
  <<32768, 32768, 0, 32768>>,
  <<32907, 0, 0, 0>>,
  <<1, 32768, 0, 0>>,
  <<32897, 32768, 0, 32768>>,
  <<32777, 0, 0, 32768>>,
  <<138, 0, 0, 0>>,
  <<136, 0, 0, 0>>,
  <<32777, 32768, 0, 0>>,
  <<10, 32768, 0, 0>>,
  <<32907, 32768, 0, 0>>,
  <<139, 0, 0, 32768>>,
  <<32905, 0, 0, 32768>>,
  <<32771, 0, 0, 32768>>,
  <<32770, 0, 0, 32768>>,
  <<128, 0, 0, 32768>>,
  <<32778, 0, 0, 0>>,
  <<10, 32768, 0, 32768>>,
  <<32897, 32768, 0, 32768>>,
  <<32896, 0, 0, 32768>>,
  <<1, 32768, 0, 0>>,
  <<32776, 32768, 0, 32768>>>>

\* Index tables for the step mappings.  No LET here: TLC precomputes a constant
\* definition only when its body is LET-free.
LaneOf(i) == (i-1) \div 4
LimbOf(i) == (i-1) % 4
XOf(i) == LaneOf(i) % 5
YOf(i) == LaneOf(i) \div 5
Limb(x, y, j) == 4*((x % 5) + 5*(y % 5)) + (j % 4) + 1
ColIdx == [c \in 1..20 |-> [y \in 1..5 |-> Limb((c-1) \div 4, y-1, c-1)]]
\* D[x] = C[x-1] xor rotl(C[x+1], 1)
DA == [c \in 1..20 |-> Limb(((c-1) \div 4) + 4, 0, c-1)]
DB == [c \in 1..20 |-> Limb(((c-1) \div 4) + 1, 0, c-1)]
DC == [c \in 1..20 |-> Limb(((c-1) \div 4) + 1, 0, c+2)]
DIdx == [i \in 1..100 |-> Limb(XOf(i), 0, LimbOf(i))]
\* pi: B[y, 2x+3y] = rotl(A[x, y], RhoOff[x, y]); target lane (X,Y) comes from x = 3(Y-3X) mod 5, y = X
SrcX(X, Y) == (3*(Y + 15 - 3*X)) % 5
SrcOff(i) == RhoOff[SrcX(XOf(i), YOf(i)) + 5*XOf(i) + 1]
RpHi == [i \in 1..100 |-> Limb(SrcX(XOf(i), YOf(i)), XOf(i), LimbOf(i) + 4 - (SrcOff(i) \div 16))]
RpLo == [i \in 1..100 |-> Limb(SrcX(XOf(i), YOf(i)), XOf(i), LimbOf(i) + 7 - (SrcOff(i) \div 16))]
RpMul == [i \in 1..100 |-> P2[(SrcOff(i) % 16) + 1]]
RpDiv == [i \in 1..100 |-> P2[17 - (SrcOff(i) % 16)]]
ChiA == [i \in 1..100 |-> Limb(XOf(i) + 1, YOf(i), LimbOf(i))]
ChiB == [i \in 1..100 |-> Limb(XOf(i) + 2, YOf(i), LimbOf(i))]

\* strict application: Op is applied to the value of v (TLC passes operator arguments by name)
Force(Op(_), v) == FoldLeft(LAMBDA acc, e : Op(e), 0, <<v>>)

ThetaC(a) == TLCEval([c \in 1..20 |-> LET I == ColIdx[c] IN (((a[I[1]] ^^ a[I[2]]) ^^ a[I[3]]) ^^ a[I[4]]) ^^ a[I[5]]])
ThetaD(C) == TLCEval([c \in 1..20 |-> C[DA[c]] ^^ (((C[DB[c]] * 2) % 65536) + (C[DC[c]] \div 32768))])
Theta(a) == Force(LAMBDA C : Force(LAMBDA D : TLCEval([i \in 1..100 |-> a[i] ^^ D[DIdx[i]]]), ThetaD(C)), ThetaC(a))
RhoPi(a) == TLCEval([i \in 1..100 |-> ((a[RpHi[i]] * RpMul[i]) % 65536) + (a[RpLo[i]] \div RpDiv[i])])
Chi(b) == TLCEval([i \in 1..100 |-> b[i] ^^ ((65535 - b[ChiA[i]]) & b[ChiB[i]])])
Iota(a, r) == [a EXCEPT ![1] = @ ^^ RC[r][1], ![2] = @ ^^ RC[r][2], ![3] = @ ^^ RC[r][3], ![4] = @ ^^ RC[r][4]]
Round(a, r) == Iota(Force(Chi, Force(RhoPi, Force(Theta, a))), r)
KeccakF(a0) == FoldLeft(Round, a0, [r \in 1..24 |-> r])

ZeroState == [i \in 1..100 |-> 0]

\* xor byte b into byte position p (0-based) of the state
XorByte(a, p, b) == [a EXCEPT ![p \div 2 + 1] = @ ^^ (IF p % 2 = 0 THEN b ELSE b * 256)]
ByteAt(a, p) == IF p % 2 = 0 THEN a[p \div 2 + 1] % 256 ELSE a[p \div 2 + 1] \div 256
\* xor an even-length rate-sized block (bytes m[off+1 .. off+rate]) into the state
XorBlock(a, m, off, rate) == TLCEval([i \in 1..100 |-> IF 2*i <= rate THEN a[i] ^^ (m[off + 2*i - 1] + 256 * m[off + 2*i]) ELSE a[i]])
Block(a, rate) == TLCEval([p \in 1..rate |-> ByteAt(a, p-1)])

\* pad10*1 with domain-separation suffix ds (0x06 SHA-3, 0x1F SHAKE)
Pad(m, rate, ds) == LET n == Len(m) r == rate - (n % rate)
                    IN  TLCEval([i \in 1..(n+r) |-> (IF i <= n THEN m[i] ELSE IF i = n+1 THEN ds ELSE 0)
                                          ^^ (IF i = n+r THEN 128 ELSE 0)])
AbsorbAll(m, rate, ds) ==
   LET p == Pad(m, rate, ds)
   IN  FoldLeft(LAMBDA a, k : KeccakF(XorBlock(a, p, (k-1)*rate, rate)), ZeroState, [k \in 1..(Len(p) \div rate) |-> k])
\* squeeze n bytes from state a (already permuted)
SqueezeN(a0, rate, n) ==
   LET nb == (n + rate - 1) \div rate
   IN  IF n = 0 THEN << >>
       ELSE SubSeq(FoldLeft(LAMBDA s, k : LET a == KeccakF(s[1]) IN <<a, s[2] \o Block(a, rate)>>,
                            <<a0, Block(a0, rate)>>, [k \in 1..(nb-1) |-> k])[2], 1, n)
SpongeHash(m, rate, ds, n) == TLCEval(SqueezeN(AbsorbAll(m, rate, ds), rate, n))

SHAKE128(m, n) == SpongeHash(m, 168, 31, n)
SHAKE256(m, n) == SpongeHash(m, 136, 31, n)
SHA3x256(m) == SpongeHash(m, 136, 6, 32)
SHA3x512(m) == SpongeHash(m, 72, 6, 64)
=============================================================================
