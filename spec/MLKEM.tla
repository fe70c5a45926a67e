------------------------------- MODULE MLKEM --------------------------------
(***************************************************************************)
(* ML-KEM (FIPS 203, derandomised, without the input checks of 7.2/7.3,    *)
(* which the library documents as the caller's) over byte tuples.          *)
(*                                                                         *)
(* Every operator takes an oracle o that answers the Keccak queries:       *)
(*   o.real = TRUE   the functions of FIPS 202, evaluated in TLA+;         *)
(*   o.real = FALSE  o.tbl, a sequence of [r, d, i, o] (rate, domain byte, *)
(*                   input, output prefix) recorded from a run in which    *)
(*                   the harness answered the queries itself.              *)
(***************************************************************************)
EXTENDS KeccakFast, Ring, Sampling

Eta1(k) == IF k = 2 THEN 3 ELSE 2
Du(k) == IF k = 4 THEN 11 ELSE 10
Dv(k) == IF k = 4 THEN 5 ELSE 4
PolyVecBytes(k) == 384 * k
PKBytes(k) == 384 * k + 32
SKBytes(k) == 768 * k + 96
CTBytes(k) == 32 * (k * Du(k) + Dv(k))

----------------------------------------------------------------------------
\* the oracle.  A query the run never made yields << >>, so whatever is
\* computed from it cannot match the recorded bytes.
TblFind(tbl, r, d, in) == SelectInSeq(tbl, LAMBDA e : e.r = r /\ e.d = d /\ e.i = in)
TblAns(e, n) == IF Len(e.o) >= n THEN SubSeq(e.o, 1, n) ELSE << >>
Sponge(in, r, d, n) ==
   FoldLeft(LAMBDA s, f : IF f = 0 THEN <<FoldLeft(LAMBDA a, k : FastKeccakF(XorBlock(a, s[2], (k-1)*r, r)), ZeroState,
                                                    [k \in 1..(Len(s[2]) \div r) |-> k]), << >>>>
                          ELSE IF f = 1 THEN <<s[1], Block(s[1], r)>>
                          ELSE Force(LAMBDA a : <<a, s[2] \o Block(a, r)>>, FastKeccakF(s[1])),
            <<ZeroState, Pad(in, r, d)>>,
            [j \in 1..(1 + ((n + r - 1) \div r)) |-> j - 1])
Ask(o, in, r, d, n) ==
   IF o.real THEN SubSeq(Sponge(in, r, d, n)[2], 1, n)
   ELSE Force(LAMBDA p : IF p = 0 THEN << >> ELSE TblAns(o.tbl[p], n), TblFind(o.tbl, r, d, in))

FnG(o, in) == Ask(o, in, 72, 6, 64)                        \* SHA3-512
FnH(o, in) == Ask(o, in, 136, 6, 32)                       \* SHA3-256
FnJ(o, in) == Ask(o, in, 136, 31, 32)                      \* SHAKE256
PRF(o, s, n, eta) == Ask(o, Append(s, n), 136, 31, 64*eta) \* SHAKE256
\* SampleNTT(SHAKE128(rho || j || i)): as many blocks as the rejections need
XofStream(o, in) ==
   IF o.real
   THEN FoldLeft(LAMBDA s, b : IF Len(s) > 0 /\ SampleDone(s) THEN s ELSE Ask(o, in, 168, 31, 168*b),
                 << >>, <<3, 4, 5, 6, 8, 12, 20>>)
   ELSE Force(LAMBDA p : IF p = 0 THEN << >> ELSE o.tbl[p].o, TblFind(o.tbl, 168, 31, in))
\* entry (i,j) of the matrix, 0-based: XOF(rho, j, i)
MatEntry(o, rho, i, j) == Force(SampleNTT, XofStream(o, rho \o <<j, i>>))

----------------------------------------------------------------------------
Idx(k) == [i \in 1..k |-> i]
ForEach(k, Op(_)) == FoldLeft(LAMBDA acc, i : Append(acc, Op(i)), << >>, Idx(k))     \* strict <<Op(1), ..., Op(k)>>
Concat(s) == FoldLeft(LAMBDA acc, x : acc \o x, << >>, s)

Matrix(o, k, rho) == ForEach(k, LAMBDA i : ForEach(k, LAMBDA j : MatEntry(o, rho, i-1, j-1)))
NoiseVec(o, k, sigma, n0, eta) == ForEach(k, LAMBDA i : CBD(PRF(o, sigma, n0 + i - 1, eta), eta))
WellFormed(p) == Len(p) = 256

\* K-PKE key pair from rho, sigma: <<ekPKE, dkPKE>>
PkeKeyGenFrom(o, k, rho, sigma) ==
  Force(LAMBDA A :
   Force(LAMBDA s :
    Force(LAMBDA e :
     Force(LAMBDA t :
       << Concat(ForEach(k, LAMBDA i : ByteEncode(t[i], 12))) \o rho,
          Concat(ForEach(k, LAMBDA i : ByteEncode(s[i], 12))) >>,
       ForEach(k, LAMBDA i : PolyAdd(Dot(A[i], s), e[i]))),
     ForEach(k, LAMBDA i : NTT(CBD(PRF(o, sigma, k + i - 1, Eta1(k)), Eta1(k))))),
    ForEach(k, LAMBDA i : NTT(CBD(PRF(o, sigma, i - 1, Eta1(k)), Eta1(k))))),
   Matrix(o, k, rho))

PkeKeyGen(o, k, d) ==
  Force(LAMBDA g : PkeKeyGenFrom(o, k, SubSeq(g, 1, 32), SubSeq(g, 33, 64)), FnG(o, Append(d, k)))

\* K-PKE encryption.  Coefficients of t are taken mod q: ek need not be canonical.
PkeEnc(o, k, ek, m, r) ==
  Force(LAMBDA A :
   Force(LAMBDA y :
    Force(LAMBDA t :
     Force(LAMBDA u :
      Force(LAMBDA v :
        Concat(ForEach(k, LAMBDA i : ByteEncode(Compress(u[i], Du(k)), Du(k)))) \o ByteEncode(Compress(v, Dv(k)), Dv(k)),
        PolyAdd(PolyAdd(InvNTT(Dot(t, y)), CBD(PRF(o, r, 2*k, 2), 2)), Decompress(ByteDecode(m, 0, 1), 1))),
      ForEach(k, LAMBDA i : PolyAdd(InvNTT(Dot([j \in 1..k |-> A[j][i]], y)), CBD(PRF(o, r, k + i - 1, 2), 2)))),
     ForEach(k, LAMBDA i : PolyRed(ByteDecode(ek, 384*(i-1), 12)))),
    ForEach(k, LAMBDA i : NTT(CBD(PRF(o, r, i - 1, Eta1(k)), Eta1(k))))),
   Matrix(o, k, Slice(ek, 384*k, 32)))

\* K-PKE decryption
DecW(k, dk, c) ==
  Force(LAMBDA u :
   Force(LAMBDA s : PolySub(Decompress(ByteDecode(c, 32*k*Du(k), Dv(k)), Dv(k)), InvNTT(Dot(s, u))),
     ForEach(k, LAMBDA i : PolyRed(ByteDecode(dk, 384*(i-1), 12)))),
   ForEach(k, LAMBDA i : NTT(Decompress(ByteDecode(c, 32*Du(k)*(i-1), Du(k)), Du(k)))))
PkeDec(k, dk, c) == ByteEncode(Compress(DecW(k, dk, c), 1), 1)

----------------------------------------------------------------------------
\* In the oracle world: did the run ask everything the standard's computation needs?
Has(o, in, r, d, n) == Force(LAMBDA p : p # 0 /\ Len(o.tbl[p].o) >= n, TblFind(o.tbl, r, d, in))
HasXof(o, in) == Force(LAMBDA p : p # 0 /\ SampleDone(o.tbl[p].o), TblFind(o.tbl, 168, 31, in))
HasPke(o, k, rho, sigma, n, e) ==    \* n noise polynomials, e[c+1] the width of number c
  /\ \A i \in 0..(k-1), j \in 0..(k-1) : HasXof(o, rho \o <<j, i>>)
  /\ \A c \in 0..(n-1) : Has(o, Append(sigma, c), 136, 31, 64*e[c+1])
KgEtas(k) == [i \in 1..(2*k) |-> Eta1(k)]
EncEtas(k) == [i \in 1..(2*k+1) |-> IF i <= k THEN Eta1(k) ELSE 2]
KeyPairAsked(o, k, coins) ==
  LET d == SubSeq(coins, 1, 32) IN
  o.real \/ (/\ Has(o, Append(d, k), 72, 6, 64)
             /\ Force(LAMBDA g : HasPke(o, k, SubSeq(g, 1, 32), SubSeq(g, 33, 64), 2*k, KgEtas(k)), FnG(o, Append(d, k))))
EncAsked(o, k, pk, m) ==
  o.real \/ (/\ Has(o, pk, 136, 6, 32)
             /\ Force(LAMBDA h : /\ Has(o, m \o h, 72, 6, 64)
                                /\ HasPke(o, k, Slice(pk, 384*k, 32), SubSeq(FnG(o, m \o h), 33, 64), 2*k+1, EncEtas(k)),
                      FnH(o, pk)))
DecAsked(o, k, sk, ct) ==
  o.real \/ Force(LAMBDA m : /\ Has(o, m \o Slice(sk, 768*k + 32, 32), 72, 6, 64)
                             /\ HasPke(o, k, Slice(sk, 768*k, 32), SubSeq(FnG(o, m \o Slice(sk, 768*k + 32, 32)), 33, 64), 2*k+1, EncEtas(k)),
                   PkeDec(k, sk, ct))

----------------------------------------------------------------------------
\* ML-KEM.  coins = d || z.  Result <<pk, sk>>
\* <<pk, dkPKE || pk>>
KeyPairCore(o, k, coins) == Force(LAMBDA kp : << kp[1], kp[2] \o kp[1] >>, PkeKeyGen(o, k, SubSeq(coins, 1, 32)))
KeyPair(o, k, coins) ==
  Force(LAMBDA kp : << kp[1], (kp[2] \o FnH(o, kp[1])) \o SubSeq(coins, 33, 64) >>, KeyPairCore(o, k, coins))

\* result <<ct, ss>>
Encaps(o, k, pk, m) ==
  Force(LAMBDA g : << PkeEnc(o, k, pk, m, SubSeq(g, 33, 64)), SubSeq(g, 1, 32) >>,
        FnG(o, m \o FnH(o, pk)))

\* result ss.  sk = dkPKE || ek || H || z, taken as bytes: the stored hash is used, not recomputed
Decaps(o, k, sk, ct) ==
  Force(LAMBDA g :
     IF PkeEnc(o, k, Slice(sk, 384*k, PKBytes(k)), g[2], SubSeq(g[1], 33, 64)) = ct
     THEN SubSeq(g[1], 1, 32)
     ELSE FnJ(o, Slice(sk, 768*k + 64, 32) \o ct),
     Force(LAMBDA m : << FnG(o, m \o Slice(sk, 768*k + 32, 32)), m >>, PkeDec(k, sk, ct)))
=============================================================================
