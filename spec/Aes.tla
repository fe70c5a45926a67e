-------------------------------- MODULE Aes ---------------------------------
(***************************************************************************)
(* AES-256 (FIPS 197) on sequences of 16 bytes, executable in TLC.         *)
(* AesLemmas.tla derives the S-box from its definition and checks the      *)
(* standard's example.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
SB == <<
  99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,
  202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,
  183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,
  4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,
  9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,
  83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,
  208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,
  81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,
  205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,
  96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,
  224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,
  231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,
  186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,
  112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,
  225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,
  140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22>>
X2 == [i \in 1..256 |-> IF i <= 128 THEN 2*(i-1) ELSE (2*(i-1) - 256) ^^ 27]
Rcon == <<1, 2, 4, 8, 16, 32, 64>>
XorB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])
\* SubBytes and ShiftRows; the state is in column order
SubShift(s) == <<SB[s[1]+1], SB[s[6]+1], SB[s[11]+1], SB[s[16]+1], SB[s[5]+1], SB[s[10]+1], SB[s[15]+1], SB[s[4]+1], SB[s[9]+1], SB[s[14]+1], SB[s[3]+1], SB[s[8]+1], SB[s[13]+1], SB[s[2]+1], SB[s[7]+1], SB[s[12]+1]>>
MixColumns(s) == <<
  (X2[s[1]+1] ^^ (X2[s[2]+1] ^^ s[2])) ^^ (s[3] ^^ s[4]),
  (X2[s[2]+1] ^^ (X2[s[3]+1] ^^ s[3])) ^^ (s[4] ^^ s[1]),
  (X2[s[3]+1] ^^ (X2[s[4]+1] ^^ s[4])) ^^ (s[1] ^^ s[2]),
  (X2[s[4]+1] ^^ (X2[s[1]+1] ^^ s[1])) ^^ (s[2] ^^ s[3]),
  (X2[s[5]+1] ^^ (X2[s[6]+1] ^^ s[6])) ^^ (s[7] ^^ s[8]),
  (X2[s[6]+1] ^^ (X2[s[7]+1] ^^ s[7])) ^^ (s[8] ^^ s[5]),
  (X2[s[7]+1] ^^ (X2[s[8]+1] ^^ s[8])) ^^ (s[5] ^^ s[6]),
  (X2[s[8]+1] ^^ (X2[s[5]+1] ^^ s[5])) ^^ (s[6] ^^ s[7]),
  (X2[s[9]+1] ^^ (X2[s[10]+1] ^^ s[10])) ^^ (s[11] ^^ s[12]),
  (X2[s[10]+1] ^^ (X2[s[11]+1] ^^ s[11])) ^^ (s[12] ^^ s[9]),
  (X2[s[11]+1] ^^ (X2[s[12]+1] ^^ s[12])) ^^ (s[9] ^^ s[10]),
  (X2[s[12]+1] ^^ (X2[s[9]+1] ^^ s[9])) ^^ (s[10] ^^ s[11]),
  (X2[s[13]+1] ^^ (X2[s[14]+1] ^^ s[14])) ^^ (s[15] ^^ s[16]),
  (X2[s[14]+1] ^^ (X2[s[15]+1] ^^ s[15])) ^^ (s[16] ^^ s[13]),
  (X2[s[15]+1] ^^ (X2[s[16]+1] ^^ s[16])) ^^ (s[13] ^^ s[14]),
  (X2[s[16]+1] ^^ (X2[s[13]+1] ^^ s[13])) ^^ (s[14] ^^ s[15])>>
\* key schedule: 60 words of 4 bytes
SubW(w) == <<SB[w[1]+1], SB[w[2]+1], SB[w[3]+1], SB[w[4]+1]>>
RotW(w) == <<w[2], w[3], w[4], w[1]>>
XorW(a, b) == <<a[1]^^b[1], a[2]^^b[2], a[3]^^b[3], a[4]^^b[4]>>
NextW(W, i) == LET t == W[i-1] IN    \* i counts from 1; word 8 of the standard is i = 9
  XorW(W[i-8], IF i % 8 = 1 THEN XorW(SubW(RotW(t)), <<Rcon[(i-1) \div 8], 0, 0, 0>>)
               ELSE IF i % 8 = 5 THEN SubW(t) ELSE t)
Indices == [j \in 1..52 |-> j + 8]
Words(k) == FoldLeft(LAMBDA W, i : Append(W, NextW(W, i)), [w \in 1..8 |-> SubSeq(k, 4*w-3, 4*w)], Indices)
\* the 15 round keys
KeySchedule(k) == LET W == Words(k) IN TLCEval([r \in 1..15 |-> W[4*r-3] \o (W[4*r-2] \o (W[4*r-1] \o W[4*r]))])
Rounds == [j \in 1..13 |-> j + 1]
Encrypt(rk, b) ==
  LET s == FoldLeft(LAMBDA t, r : XorB(MixColumns(SubShift(t)), rk[r]), XorB(b, rk[1]), Rounds)
  IN XorB(SubShift(s), rk[15])
=============================================================================
