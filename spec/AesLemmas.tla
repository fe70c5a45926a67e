----------------------------- MODULE AesLemmas ------------------------------
EXTENDS Aes
Bit(x, j) == (x \div (2^j)) % 2
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(X2[a+1], b \div 2)
Affine(x) == LET f(j) == (Bit(x, j) + Bit(x, (j+4) % 8) + Bit(x, (j+5) % 8) + Bit(x, (j+6) % 8) + Bit(x, (j+7) % 8) + Bit(99, j)) % 2
             IN f(0) + 2*f(1) + 4*f(2) + 8*f(3) + 16*f(4) + 32*f(5) + 64*f(6) + 128*f(7)
VARIABLES i, bad
Init == i = 1 /\ bad = 0
Lemma(n) ==
  CASE n = 1 -> SB[1] = Affine(0) /\ \A x \in 1..255 : \E y \in 1..255 : GMul(x, y) = 1 /\ SB[x+1] = Affine(y)
    [] n = 2 -> \* FIPS 197, C.3
         Encrypt(KeySchedule([j \in 1..32 |-> j-1]), [j \in 1..16 |-> 17*(j-1)])
           = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
    [] n = 3 -> \* FIPS 197, A.3: the last word of the schedule of its example key
         KeySchedule(<<96,61,235,16,21,202,113,190,43,115,174,240,133,125,119,129,31,53,44,7,59,97,8,215,45,152,16,163,9,20,223,244>>)[15][13]
           = 112
LAST == 3
Next == i <= LAST /\ i' = i + 1 /\ bad' = (IF Lemma(i) THEN bad ELSE i)
Sound == bad = 0
=============================================================================
