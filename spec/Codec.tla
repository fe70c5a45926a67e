------------------------------- MODULE Codec --------------------------------
(***************************************************************************)
(* Bytes, bits, ByteEncode_d / ByteDecode_d and Compress_d / Decompress_d  *)
(* (FIPS 203 4.2.1).  Compress is stated as rounding to nearest of         *)
(* (2^d/q) x with ties up, mod 2^d.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bitwise

TwoTo == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096>>
Pow2(d) == TwoTo[d+1]

Compress1(x, d) == ((2 * Pow2(d) * x + 3329) \div 6658) % Pow2(d)
Decompress1(y, d) == (2 * 3329 * y + Pow2(d)) \div (2 * Pow2(d))
Compress(a, d) == TLCEval([i \in 1..256 |-> Compress1(a[i], d)])
Decompress(a, d) == TLCEval([i \in 1..256 |-> Decompress1(a[i], d)])

\* bit n (0-based) of a byte tuple
BitOf(b, n) == (b[(n \div 8) + 1] \div Pow2(n % 8)) % 2

\* ByteDecode_d: 256 integers of d bits, little endian, from 32 d bytes starting after offset off.
\* d <= 12, so an integer spans at most 3 bytes.
ByteAtZ(b, k) == IF k <= Len(b) THEN b[k] ELSE 0
ByteDecode(b, off, d) ==
  TLCEval([i \in 1..256 |->
     LET n == (i-1)*d  k == off + (n \div 8) + 1
     IN (((ByteAtZ(b, k) + 256 * ByteAtZ(b, k+1) + 65536 * ByteAtZ(b, k+2)) \div Pow2(n % 8)) % Pow2(d))])

\* ByteEncode_d: byte k collects the bits 8k..8k+7 of the bit string of the 256 d-bit integers
ByteEncode(a, d) ==
  TLCEval([k \in 1..(32*d) |->
     LET n == 8*(k-1)  i == n \div d  s == n % d          \* first bit is bit s of integer i
         v1 == a[i+1] \div Pow2(s)
         v2 == IF i+2 <= 256 THEN v1 + a[i+2] * Pow2(d-s) ELSE v1
         v3 == IF 2*d - s < 8 /\ i+3 <= 256 THEN v2 + a[i+3] * Pow2(2*d-s) ELSE v2
     IN IF d = 1 THEN a[n+1] + 2*a[n+2] + 4*a[n+3] + 8*a[n+4] + 16*a[n+5] + 32*a[n+6] + 64*a[n+7] + 128*a[n+8]
        ELSE v3 % 256])

Slice(b, off, n) == SubSeq(b, off + 1, off + n)
=============================================================================
