-------------------------------- MODULE Drbg --------------------------------
(***************************************************************************)
(* CTR_DRBG of SP 800-90A with AES-256, without derivation function and    *)
(* prediction resistance.  A state is [rk, v]: the expanded key and V.     *)
(* Numbers that may exceed 31 bits are <<h, l>>, h * 2^24 + l.             *)
(***************************************************************************)
EXTENDS Aes
B == 16777216
Norm(h, lo) == <<h + (lo \div B), (lo % B)>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Zeros(n) == [i \in 1..n |-> 0]
\* big-endian addition of a small number to a byte string, carries across all bytes, modulo its size
AddBE(v, n) == LET L == Len(v) IN
  FoldLeft(LAMBDA a, i : LET s == a.v[L + 1 - i] + a.c IN [v |-> [a.v EXCEPT ![L + 1 - i] = s % 256], c |-> s \div 256],
           [v |-> v, c |-> n], [i \in 1..L |-> i]).v
AddPair(v, n) == LET hi == AddBE(SubSeq(v, 1, 13), n[1])  lo == AddBE(<<0>> \o SubSeq(v, 14, 16), n[2])   \* 3 bytes and a carry byte
                 IN AddBE(hi, lo[1]) \o SubSeq(lo, 2, 4)
Update(rk, v, data) ==
  LET t == Encrypt(rk, AddBE(v, 1)) \o (Encrypt(rk, AddBE(v, 2)) \o Encrypt(rk, AddBE(v, 3)))
      m == IF data = << >> THEN t ELSE XorB(t, data)
  IN [rk |-> KeySchedule(SubSeq(m, 1, 32)), v |-> SubSeq(m, 33, 48)]
\* ceil(n/16) for n = <<h, l>>, as a pair
Blocks(n) == LET r == n[1] % 16  q == (r * 1048576) + ((n[2] + 15) \div 16) IN Norm(n[1] \div 16, q)
\* bytes of the block stream: block number b (a pair, from 1) is E(v + b)
BlockAt(rk, v, b) == Encrypt(rk, AddPair(v, b))
Small(n) == n[1] = 0 /\ n[2] <= 4096
Stream(rk, v, nb) == FoldLeft(LAMBDA a, b : a \o Encrypt(rk, AddBE(v, b)), << >>, [b \in 1..nb |-> b])
Pred(p) == IF p[2] = 0 THEN <<p[1] - 1, B - 1>> ELSE <<p[1], p[2] - 1>>
\* instantiate from 48 bytes of entropy and a personalisation string (or none), and one small request
Instantiate(e, p) == Update(KeySchedule(Zeros(32)), Zeros(16), IF p = << >> THEN e ELSE XorB(e, p))
Generate(d, n) == SubSeq(Stream(d.rk, d.v, (n + 15) \div 16), 1, n)
After(d, n) == Update(d.rk, AddBE(d.v, (n + 15) \div 16), << >>)
=============================================================================
