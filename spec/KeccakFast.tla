---------------------------- MODULE KeccakFast ----------------------------
\* GENERATED by gen_tables.py: the round of Keccak.tla with its index tables
\* unrolled (4x faster in TLC).  SpecLemmas.tla checks FastKeccakF = KeccakF.
EXTENDS Keccak

FThetaC(a) == <<
  ((a[1]^^a[21])^^(a[41]^^a[61]))^^a[81],
  ((a[2]^^a[22])^^(a[42]^^a[62]))^^a[82],
  ((a[3]^^a[23])^^(a[43]^^a[63]))^^a[83],
  ((a[4]^^a[24])^^(a[44]^^a[64]))^^a[84],
  ((a[5]^^a[25])^^(a[45]^^a[65]))^^a[85],
  ((a[6]^^a[26])^^(a[46]^^a[66]))^^a[86],
  ((a[7]^^a[27])^^(a[47]^^a[67]))^^a[87],
  ((a[8]^^a[28])^^(a[48]^^a[68]))^^a[88],
  ((a[9]^^a[29])^^(a[49]^^a[69]))^^a[89],
  ((a[10]^^a[30])^^(a[50]^^a[70]))^^a[90],
  ((a[11]^^a[31])^^(a[51]^^a[71]))^^a[91],
  ((a[12]^^a[32])^^(a[52]^^a[72]))^^a[92],
  ((a[13]^^a[33])^^(a[53]^^a[73]))^^a[93],
  ((a[14]^^a[34])^^(a[54]^^a[74]))^^a[94],
  ((a[15]^^a[35])^^(a[55]^^a[75]))^^a[95],
  ((a[16]^^a[36])^^(a[56]^^a[76]))^^a[96],
  ((a[17]^^a[37])^^(a[57]^^a[77]))^^a[97],
  ((a[18]^^a[38])^^(a[58]^^a[78]))^^a[98],
  ((a[19]^^a[39])^^(a[59]^^a[79]))^^a[99],
  ((a[20]^^a[40])^^(a[60]^^a[80]))^^a[100]>>
FThetaD(C) == <<
  C[17]^^(((C[5]*2)%65536)+(C[8]\div 32768)),
  C[18]^^(((C[6]*2)%65536)+(C[5]\div 32768)),
  C[19]^^(((C[7]*2)%65536)+(C[6]\div 32768)),
  C[20]^^(((C[8]*2)%65536)+(C[7]\div 32768)),
  C[1]^^(((C[9]*2)%65536)+(C[12]\div 32768)),
  C[2]^^(((C[10]*2)%65536)+(C[9]\div 32768)),
  C[3]^^(((C[11]*2)%65536)+(C[10]\div 32768)),
  C[4]^^(((C[12]*2)%65536)+(C[11]\div 32768)),
  C[5]^^(((C[13]*2)%65536)+(C[16]\div 32768)),
  C[6]^^(((C[14]*2)%65536)+(C[13]\div 32768)),
  C[7]^^(((C[15]*2)%65536)+(C[14]\div 32768)),
  C[8]^^(((C[16]*2)%65536)+(C[15]\div 32768)),
  C[9]^^(((C[17]*2)%65536)+(C[20]\div 32768)),
  C[10]^^(((C[18]*2)%65536)+(C[17]\div 32768)),
  C[11]^^(((C[19]*2)%65536)+(C[18]\div 32768)),
  C[12]^^(((C[20]*2)%65536)+(C[19]\div 32768)),
  C[13]^^(((C[1]*2)%65536)+(C[4]\div 32768)),
  C[14]^^(((C[2]*2)%65536)+(C[1]\div 32768)),
  C[15]^^(((C[3]*2)%65536)+(C[2]\div 32768)),
  C[16]^^(((C[4]*2)%65536)+(C[3]\div 32768))>>
FThetaRhoPi(a, D) == <<
  a[1]^^D[1],
  a[2]^^D[2],
  a[3]^^D[3],
  a[4]^^D[4],
  (((a[27]^^D[7])*4096)%65536)+((a[26]^^D[6])\div 16),
  (((a[28]^^D[8])*4096)%65536)+((a[27]^^D[7])\div 16),
  (((a[25]^^D[5])*4096)%65536)+((a[28]^^D[8])\div 16),
  (((a[26]^^D[6])*4096)%65536)+((a[25]^^D[5])\div 16),
  (((a[51]^^D[11])*2048)%65536)+((a[50]^^D[10])\div 32),
  (((a[52]^^D[12])*2048)%65536)+((a[51]^^D[11])\div 32),
  (((a[49]^^D[9])*2048)%65536)+((a[52]^^D[12])\div 32),
  (((a[50]^^D[10])*2048)%65536)+((a[49]^^D[9])\div 32),
  (((a[76]^^D[16])*32)%65536)+((a[75]^^D[15])\div 2048),
  (((a[73]^^D[13])*32)%65536)+((a[76]^^D[16])\div 2048),
  (((a[74]^^D[14])*32)%65536)+((a[73]^^D[13])\div 2048),
  (((a[75]^^D[15])*32)%65536)+((a[74]^^D[14])\div 2048),
  (((a[97]^^D[17])*16384)%65536)+((a[100]^^D[20])\div 4),
  (((a[98]^^D[18])*16384)%65536)+((a[97]^^D[17])\div 4),
  (((a[99]^^D[19])*16384)%65536)+((a[98]^^D[18])\div 4),
  (((a[100]^^D[20])*16384)%65536)+((a[99]^^D[19])\div 4),
  (((a[16]^^D[16])*4096)%65536)+((a[15]^^D[15])\div 16),
  (((a[13]^^D[13])*4096)%65536)+((a[16]^^D[16])\div 16),
  (((a[14]^^D[14])*4096)%65536)+((a[13]^^D[13])\div 16),
  (((a[15]^^D[15])*4096)%65536)+((a[14]^^D[14])\div 16),
  (((a[40]^^D[20])*16)%65536)+((a[39]^^D[19])\div 4096),
  (((a[37]^^D[17])*16)%65536)+((a[40]^^D[20])\div 4096),
  (((a[38]^^D[18])*16)%65536)+((a[37]^^D[17])\div 4096),
  (((a[39]^^D[19])*16)%65536)+((a[38]^^D[18])\div 4096),
  (((a[41]^^D[1])*8)%65536)+((a[44]^^D[4])\div 8192),
  (((a[42]^^D[2])*8)%65536)+((a[41]^^D[1])\div 8192),
  (((a[43]^^D[3])*8)%65536)+((a[42]^^D[2])\div 8192),
  (((a[44]^^D[4])*8)%65536)+((a[43]^^D[3])\div 8192),
  (((a[67]^^D[7])*8192)%65536)+((a[66]^^D[6])\div 8),
  (((a[68]^^D[8])*8192)%65536)+((a[67]^^D[7])\div 8),
  (((a[65]^^D[5])*8192)%65536)+((a[68]^^D[8])\div 8),
  (((a[66]^^D[6])*8192)%65536)+((a[65]^^D[5])\div 8),
  (((a[90]^^D[10])*8192)%65536)+((a[89]^^D[9])\div 8),
  (((a[91]^^D[11])*8192)%65536)+((a[90]^^D[10])\div 8),
  (((a[92]^^D[12])*8192)%65536)+((a[91]^^D[11])\div 8),
  (((a[89]^^D[9])*8192)%65536)+((a[92]^^D[12])\div 8),
  (((a[5]^^D[5])*2)%65536)+((a[8]^^D[8])\div 32768),
  (((a[6]^^D[6])*2)%65536)+((a[5]^^D[5])\div 32768),
  (((a[7]^^D[7])*2)%65536)+((a[6]^^D[6])\div 32768),
  (((a[8]^^D[8])*2)%65536)+((a[7]^^D[7])\div 32768),
  (((a[29]^^D[9])*64)%65536)+((a[32]^^D[12])\div 1024),
  (((a[30]^^D[10])*64)%65536)+((a[29]^^D[9])\div 1024),
  (((a[31]^^D[11])*64)%65536)+((a[30]^^D[10])\div 1024),
  (((a[32]^^D[12])*64)%65536)+((a[31]^^D[11])\div 1024),
  (((a[56]^^D[16])*512)%65536)+((a[55]^^D[15])\div 128),
  (((a[53]^^D[13])*512)%65536)+((a[56]^^D[16])\div 128),
  (((a[54]^^D[14])*512)%65536)+((a[53]^^D[13])\div 128),
  (((a[55]^^D[15])*512)%65536)+((a[54]^^D[14])\div 128),
  (((a[77]^^D[17])*256)%65536)+((a[80]^^D[20])\div 256),
  (((a[78]^^D[18])*256)%65536)+((a[77]^^D[17])\div 256),
  (((a[79]^^D[19])*256)%65536)+((a[78]^^D[18])\div 256),
  (((a[80]^^D[20])*256)%65536)+((a[79]^^D[19])\div 256),
  (((a[84]^^D[4])*4)%65536)+((a[83]^^D[3])\div 16384),
  (((a[81]^^D[1])*4)%65536)+((a[84]^^D[4])\div 16384),
  (((a[82]^^D[2])*4)%65536)+((a[81]^^D[1])\div 16384),
  (((a[83]^^D[3])*4)%65536)+((a[82]^^D[2])\div 16384),
  (((a[20]^^D[20])*2048)%65536)+((a[19]^^D[19])\div 32),
  (((a[17]^^D[17])*2048)%65536)+((a[20]^^D[20])\div 32),
  (((a[18]^^D[18])*2048)%65536)+((a[17]^^D[17])\div 32),
  (((a[19]^^D[19])*2048)%65536)+((a[18]^^D[18])\div 32),
  (((a[23]^^D[3])*16)%65536)+((a[22]^^D[2])\div 4096),
  (((a[24]^^D[4])*16)%65536)+((a[23]^^D[3])\div 4096),
  (((a[21]^^D[1])*16)%65536)+((a[24]^^D[4])\div 4096),
  (((a[22]^^D[2])*16)%65536)+((a[21]^^D[1])\div 4096),
  (((a[45]^^D[5])*1024)%65536)+((a[48]^^D[8])\div 64),
  (((a[46]^^D[6])*1024)%65536)+((a[45]^^D[5])\div 64),
  (((a[47]^^D[7])*1024)%65536)+((a[46]^^D[6])\div 64),
  (((a[48]^^D[8])*1024)%65536)+((a[47]^^D[7])\div 64),
  (((a[69]^^D[9])*32768)%65536)+((a[72]^^D[12])\div 2),
  (((a[70]^^D[10])*32768)%65536)+((a[69]^^D[9])\div 2),
  (((a[71]^^D[11])*32768)%65536)+((a[70]^^D[10])\div 2),
  (((a[72]^^D[12])*32768)%65536)+((a[71]^^D[11])\div 2),
  (((a[94]^^D[14])*256)%65536)+((a[93]^^D[13])\div 256),
  (((a[95]^^D[15])*256)%65536)+((a[94]^^D[14])\div 256),
  (((a[96]^^D[16])*256)%65536)+((a[95]^^D[15])\div 256),
  (((a[93]^^D[13])*256)%65536)+((a[96]^^D[16])\div 256),
  (((a[10]^^D[10])*16384)%65536)+((a[9]^^D[9])\div 4),
  (((a[11]^^D[11])*16384)%65536)+((a[10]^^D[10])\div 4),
  (((a[12]^^D[12])*16384)%65536)+((a[11]^^D[11])\div 4),
  (((a[9]^^D[9])*16384)%65536)+((a[12]^^D[12])\div 4),
  (((a[34]^^D[14])*128)%65536)+((a[33]^^D[13])\div 512),
  (((a[35]^^D[15])*128)%65536)+((a[34]^^D[14])\div 512),
  (((a[36]^^D[16])*128)%65536)+((a[35]^^D[15])\div 512),
  (((a[33]^^D[13])*128)%65536)+((a[36]^^D[16])\div 512),
  (((a[59]^^D[19])*128)%65536)+((a[58]^^D[18])\div 512),
  (((a[60]^^D[20])*128)%65536)+((a[59]^^D[19])\div 512),
  (((a[57]^^D[17])*128)%65536)+((a[60]^^D[20])\div 512),
  (((a[58]^^D[18])*128)%65536)+((a[57]^^D[17])\div 512),
  (((a[63]^^D[3])*512)%65536)+((a[62]^^D[2])\div 128),
  (((a[64]^^D[4])*512)%65536)+((a[63]^^D[3])\div 128),
  (((a[61]^^D[1])*512)%65536)+((a[64]^^D[4])\div 128),
  (((a[62]^^D[2])*512)%65536)+((a[61]^^D[1])\div 128),
  (((a[85]^^D[5])*4)%65536)+((a[88]^^D[8])\div 16384),
  (((a[86]^^D[6])*4)%65536)+((a[85]^^D[5])\div 16384),
  (((a[87]^^D[7])*4)%65536)+((a[86]^^D[6])\div 16384),
  (((a[88]^^D[8])*4)%65536)+((a[87]^^D[7])\div 16384)>>
FChi(b) == <<
  b[1]^^((65535-b[5])&b[9]),
  b[2]^^((65535-b[6])&b[10]),
  b[3]^^((65535-b[7])&b[11]),
  b[4]^^((65535-b[8])&b[12]),
  b[5]^^((65535-b[9])&b[13]),
  b[6]^^((65535-b[10])&b[14]),
  b[7]^^((65535-b[11])&b[15]),
  b[8]^^((65535-b[12])&b[16]),
  b[9]^^((65535-b[13])&b[17]),
  b[10]^^((65535-b[14])&b[18]),
  b[11]^^((65535-b[15])&b[19]),
  b[12]^^((65535-b[16])&b[20]),
  b[13]^^((65535-b[17])&b[1]),
  b[14]^^((65535-b[18])&b[2]),
  b[15]^^((65535-b[19])&b[3]),
  b[16]^^((65535-b[20])&b[4]),
  b[17]^^((65535-b[1])&b[5]),
  b[18]^^((65535-b[2])&b[6]),
  b[19]^^((65535-b[3])&b[7]),
  b[20]^^((65535-b[4])&b[8]),
  b[21]^^((65535-b[25])&b[29]),
  b[22]^^((65535-b[26])&b[30]),
  b[23]^^((65535-b[27])&b[31]),
  b[24]^^((65535-b[28])&b[32]),
  b[25]^^((65535-b[29])&b[33]),
  b[26]^^((65535-b[30])&b[34]),
  b[27]^^((65535-b[31])&b[35]),
  b[28]^^((65535-b[32])&b[36]),
  b[29]^^((65535-b[33])&b[37]),
  b[30]^^((65535-b[34])&b[38]),
  b[31]^^((65535-b[35])&b[39]),
  b[32]^^((65535-b[36])&b[40]),
  b[33]^^((65535-b[37])&b[21]),
  b[34]^^((65535-b[38])&b[22]),
  b[35]^^((65535-b[39])&b[23]),
  b[36]^^((65535-b[40])&b[24]),
  b[37]^^((65535-b[21])&b[25]),
  b[38]^^((65535-b[22])&b[26]),
  b[39]^^((65535-b[23])&b[27]),
  b[40]^^((65535-b[24])&b[28]),
  b[41]^^((65535-b[45])&b[49]),
  b[42]^^((65535-b[46])&b[50]),
  b[43]^^((65535-b[47])&b[51]),
  b[44]^^((65535-b[48])&b[52]),
  b[45]^^((65535-b[49])&b[53]),
  b[46]^^((65535-b[50])&b[54]),
  b[47]^^((65535-b[51])&b[55]),
  b[48]^^((65535-b[52])&b[56]),
  b[49]^^((65535-b[53])&b[57]),
  b[50]^^((65535-b[54])&b[58]),
  b[51]^^((65535-b[55])&b[59]),
  b[52]^^((65535-b[56])&b[60]),
  b[53]^^((65535-b[57])&b[41]),
  b[54]^^((65535-b[58])&b[42]),
  b[55]^^((65535-b[59])&b[43]),
  b[56]^^((65535-b[60])&b[44]),
  b[57]^^((65535-b[41])&b[45]),
  b[58]^^((65535-b[42])&b[46]),
  b[59]^^((65535-b[43])&b[47]),
  b[60]^^((65535-b[44])&b[48]),
  b[61]^^((65535-b[65])&b[69]),
  b[62]^^((65535-b[66])&b[70]),
  b[63]^^((65535-b[67])&b[71]),
  b[64]^^((65535-b[68])&b[72]),
  b[65]^^((65535-b[69])&b[73]),
  b[66]^^((65535-b[70])&b[74]),
  b[67]^^((65535-b[71])&b[75]),
  b[68]^^((65535-b[72])&b[76]),
  b[69]^^((65535-b[73])&b[77]),
  b[70]^^((65535-b[74])&b[78]),
  b[71]^^((65535-b[75])&b[79]),
  b[72]^^((65535-b[76])&b[80]),
  b[73]^^((65535-b[77])&b[61]),
  b[74]^^((65535-b[78])&b[62]),
  b[75]^^((65535-b[79])&b[63]),
  b[76]^^((65535-b[80])&b[64]),
  b[77]^^((65535-b[61])&b[65]),
  b[78]^^((65535-b[62])&b[66]),
  b[79]^^((65535-b[63])&b[67]),
  b[80]^^((65535-b[64])&b[68]),
  b[81]^^((65535-b[85])&b[89]),
  b[82]^^((65535-b[86])&b[90]),
  b[83]^^((65535-b[87])&b[91]),
  b[84]^^((65535-b[88])&b[92]),
  b[85]^^((65535-b[89])&b[93]),
  b[86]^^((65535-b[90])&b[94]),
  b[87]^^((65535-b[91])&b[95]),
  b[88]^^((65535-b[92])&b[96]),
  b[89]^^((65535-b[93])&b[97]),
  b[90]^^((65535-b[94])&b[98]),
  b[91]^^((65535-b[95])&b[99]),
  b[92]^^((65535-b[96])&b[100]),
  b[93]^^((65535-b[97])&b[81]),
  b[94]^^((65535-b[98])&b[82]),
  b[95]^^((65535-b[99])&b[83]),
  b[96]^^((65535-b[100])&b[84]),
  b[97]^^((65535-b[81])&b[85]),
  b[98]^^((65535-b[82])&b[86]),
  b[99]^^((65535-b[83])&b[87]),
  b[100]^^((65535-b[84])&b[88])>>
FRound(a, r) == Iota(Force(FChi, Force(LAMBDA D : FThetaRhoPi(a, D), Force(FThetaD, Force(FThetaC, a)))), r)
FastKeccakF(a0) == FoldLeft(FRound, a0, [r \in 1..24 |-> r])
=============================================================================
