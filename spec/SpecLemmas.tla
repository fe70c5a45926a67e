----------------------------- MODULE SpecLemmas -----------------------------
(***************************************************************************)
(* Sanity of the functional core, checked by TLC before anything is judged *)
(* with it: generated tables against their definitions, NTT as a ring      *)
(* isomorphism, codecs as inverses, rounding and error bounds for every    *)
(* value, sampler and CBD facts, FIPS 202 vectors.  One lemma per state:   *)
(* state i is reached only if lemma i-1 holds; `bad' collects failures.    *)
(***************************************************************************)
EXTENDS MLKEM, Integers, Sequences

VARIABLES i, bad
vars == <<i, bad>>

Brv7(n) == FoldLeft(LAMBDA s, b : 2*s + ((n \div Pow2(b)) % 2), 0, <<0,1,2,3,4,5,6>>)
PowMod(b, e) == FoldLeft(LAMBDA s, j : (s * b) % Q, 1, [j \in 1..e |-> j])
Unit(j) == [n \in 1..256 |-> IF n = j THEN 1 ELSE 0]
\* a cheap deterministic pseudo-random polynomial
Rnd(s) == FoldLeft(LAMBDA a, n : Append(a, (IF n = 1 THEN s * 1103 + 12345 ELSE a[n-1] * 1103 + n * 7919 + s) % Q), << >>, [n \in 1..256 |-> n])
Bytes(p) == [n \in DOMAIN p |-> p[n] % 256]

\* the round constants by the LFSR of FIPS 202 3.2.5
LfsrNext(R) == IF R >= 128 THEN ((R * 2) - 256) ^^ 113 ELSE R * 2
LfsrAt == FoldLeft(LAMBDA s, t : Append(s, LfsrNext(s[t])), <<1>>, [t \in 1..167 |-> t])
RcLimb(r, lm, A) == FoldLeft(LAMBDA s, j : s + (IF (A[j + 7*(r-1) + 1] % 2) = 1 /\ ((P2[j+1] - 1) \div 16) = lm - 1
                                            THEN P2[((P2[j+1] - 1) % 16) + 1] ELSE 0), 0, <<0,1,2,3,4,5,6>>)
RhoByDef == FoldLeft(LAMBDA s, t : <<s[2], (2*s[1] + 3*s[2]) % 5, [s[3] EXCEPT ![s[1] + 5*s[2] + 1] = ((t*(t+1)) \div 2) % 64]>>,
                     <<1, 0, [n \in 1..25 |-> 0]>>, [t \in 1..24 |-> t])[3]
SampleState(s) == [n \in 1..100 |-> (s * 7919 + n * n * 31 + n * s) % 65536]

Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* distance in Z_q
Dist(a, b) == LET d == (a - b) % Q IN IF d > Q \div 2 THEN Q - d ELSE d
\* FIPS 203 (4.7)/(4.8): Decompress(Compress(x)) is within round(q / 2^(d+1)) of x
ErrBound(d) == (Q + Pow2(d)) \div (2 * Pow2(d))

Lemma(n) ==
  CASE n = 1 -> \A j \in 1..24, lm \in 1..4 : Force(LAMBDA A : RC[j][lm] = RcLimb(j, lm, A), LfsrAt)
    [] n = 2 -> RhoOff = RhoByDef
    [] n = 3 -> \A s \in 1..4 : Force(LAMBDA a : FastKeccakF(a) = KeccakF(a), SampleState(s))
    [] n = 4 -> \A j \in 0..127 : ZetaT[j+1] = PowMod(17, Brv7(j)) /\ GammaT[j+1] = PowMod(17, 2*Brv7(j) + 1)
    [] n = 5 -> \A j \in 1..256 : Force(LAMBDA u : InvNTT(NTT(u)) = u /\ NTT(InvNTT(u)) = u, Unit(j))
    [] n = 6 -> \* NTT is multiplicative: on X * X^j for all j (X and 1 generate) and on dense pairs
                /\ \A j \in {1, 2, 3, 64, 127, 128, 129, 255, 256} : NTT(SchoolMul(Unit(2), Unit(j))) = BaseMul(NTT(Unit(2)), NTT(Unit(j)))
                /\ \A s \in 1..3 : Force(LAMBDA a : Force(LAMBDA b : InvNTT(BaseMul(NTT(a), NTT(b))) = SchoolMul(a, b), Rnd(s + 100)), Rnd(s))
    [] n = 7 -> \* NTT is additive
                \A s \in 1..3 : Force(LAMBDA a : Force(LAMBDA b : NTT(PolyAdd(a, b)) = PolyAdd(NTT(a), NTT(b)), Rnd(s + 50)), Rnd(s))
    [] n = 8 -> \A d \in {1, 4, 5, 10, 11, 12} : \A s \in 1..3 :
                  Force(LAMBDA a : ByteDecode(ByteEncode(a, d), 0, d) = a, [j \in 1..256 |-> Rnd(s)[j] % Pow2(d)])
    [] n = 9 -> \A d \in {1, 4, 5, 10, 11, 12} : Force(LAMBDA b : ByteEncode(ByteDecode(b, 0, d), d) = b, [j \in 1..(32*d) |-> (j * 37 + d * 11) % 256])
    [] n = 10 -> \* compression is a retraction, within the rounding error, for every value
                /\ \A d \in {1, 4, 5, 10, 11} : \A x \in 0..(Q-1) :
                     Compress1(x, d) \in 0..(Pow2(d)-1) /\ Dist(Decompress1(Compress1(x, d), d), x) <= ErrBound(d)
                /\ \A d \in {1, 4, 5, 10, 11} : \A y \in 0..(Pow2(d)-1) : Decompress1(y, d) \in 0..(Q-1) /\ Compress1(Decompress1(y, d), d) = y
    [] n = 11 -> \* a message bit survives any error below q/4
                \A m \in {0, 1} : \A e \in (0-1664)..1664 :
                   (Compress1((Decompress1(m, 1) + e) % Q, 1) = m) <=> IF m = 0 THEN e \in (0-832)..832 ELSE e \in (0-832)..831
    [] n = 12 -> \* CBD range and symmetry of its distribution
                /\ \A x \in 0..15 : LET c == BitOf(<<x>>, 0) + BitOf(<<x>>, 1) - BitOf(<<x>>, 2) - BitOf(<<x>>, 3) IN c \in -2..2
                /\ Force(LAMBDA p : \A j \in 1..256 : p[j] \in {0, 1, 2, Q-1, Q-2}, CBD([j \in 1..128 |-> (j * 73) % 256], 2))
                /\ Force(LAMBDA p : \A j \in 1..256 : p[j] \in {0, 1, 2, 3, Q-1, Q-2, Q-3}, CBD([j \in 1..192 |-> (j * 91) % 256], 3))
    [] n = 13 -> SHA3x256(Bytes(<<i - 13>>)) = \* SHA3-256(0x00)
                 <<93,83,70,159,32,254,244,248,234,181,43,136,4,78,222,105,199,122,106,104,166,7,40,96,159,196,166,95,245,49,231,208>>
    [] n = 14 -> \* rejection sampling: order, the 3-byte layout, the cut at 256
                 /\ \A c \in {0, 1, 2, 3} : Cand(<<1, 2, 3, 4, 5, 6>>, c) = <<513, 48, 1284, 96>>[c+1]
                 /\ Len(Accepted([j \in 1..384 |-> 255])) = 0
                 /\ Accepted([j \in 1..390 |-> (j * 7) % 13]) = SubSeq(SelectSeq([c \in 1..260 |-> Cand([j \in 1..390 |-> (j * 7) % 13], c-1)], LAMBDA x : x < Q), 1, 256)
LAST == 14
Init == i = 1 /\ bad = 0
Next == i <= LAST /\ i' = i + 1 /\ bad' = (IF Lemma(i) THEN bad ELSE i)
Sound == bad = 0
=============================================================================
