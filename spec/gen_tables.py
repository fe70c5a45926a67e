#!/usr/bin/env python3
"""Writes spec/KeccakFast.tla and spec/RingTables.tla: tables and an unrolled
round that TLC evaluates fast.  SpecLemmas.tla checks them against the
definitions in Keccak.tla / Ring.tla, so nothing here is trusted."""
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
def limb(x,y,j): return 4*((x%5)+5*(y%5))+(j%4)+1
off=[0]*25; x,y=1,0
for t in range(24):
    off[x+5*y]=((t+1)*(t+2)//2)%64
    x,y=y,(2*x+3*y)%5
C=[];D=[];TR=[];CH=[]
for x in range(5):
    for j in range(4):
        C.append("((a[%d]^^a[%d])^^(a[%d]^^a[%d]))^^a[%d]"%tuple(limb(x,y,j) for y in range(5)))
        D.append("C[%d]^^(((C[%d]*2)%%65536)+(C[%d]\\div 32768))"%(limb(x+4,0,j),limb(x+1,0,j),limb(x+1,0,j+3)))
for i in range(1,101):
    l=(i-1)//4;j=(i-1)%4;X=l%5;Y=l//5
    x=(3*(Y+15-3*X))%5;y=X
    o=off[x+5*y];q=o//16;s=o%16
    hi,lo=limb(x,y,j-q),limb(x,y,j-q-1)
    dh,dl=limb(x,0,j-q),limb(x,0,j-q-1)
    if s==0: TR.append("a[%d]^^D[%d]"%(hi,dh))
    else: TR.append("(((a[%d]^^D[%d])*%d)%%65536)+((a[%d]^^D[%d])\\div %d)"%(hi,dh,1<<s,lo,dl,1<<(16-s)))
    CH.append("b[%d]^^((65535-b[%d])&b[%d])"%(i,limb(X+1,Y,j),limb(X+2,Y,j)))
def tup(n,rows): return n+" == <<\n  "+",\n  ".join(rows)+">>\n"
with open("KeccakFast.tla","w") as f:
    f.write("---------------------------- MODULE KeccakFast ----------------------------\n"
    "\\* GENERATED by gen_tables.py: the round of Keccak.tla with its index tables\n"
    "\\* unrolled (4x faster in TLC).  SpecLemmas.tla checks FastKeccakF = KeccakF.\n"
    "EXTENDS Keccak\n\n")
    f.write(tup("FThetaC(a)",C)+tup("FThetaD(C)",D)+tup("FThetaRhoPi(a, D)",TR)+tup("FChi(b)",CH))
    f.write("FRound(a, r) == Iota(Force(FChi, Force(LAMBDA D : FThetaRhoPi(a, D), Force(FThetaD, Force(FThetaC, a)))), r)\n"
    "FastKeccakF(a0) == FoldLeft(FRound, a0, [r \\in 1..24 |-> r])\n"
    "=============================================================================\n")
def brv(i): return int('{:07b}'.format(i)[::-1],2)
z=[pow(17,brv(i),3329) for i in range(128)]
g=[pow(17,2*brv(i)+1,3329) for i in range(128)]
def lit(n,v):
    rows=[", ".join(map(str,v[i:i+16])) for i in range(0,len(v),16)]
    return n+" == <<\n  "+",\n  ".join(rows)+">>\n"
with open("RingTables.tla","w") as f:
    f.write("----------------------------- MODULE RingTables -----------------------------\n"
    "\\* GENERATED by gen_tables.py: powers of 17 mod 3329 in bit-reversed order\n"
    "\\* (FIPS 203 Appendix A).  SpecLemmas.tla re-derives them from 17.\n"
    "EXTENDS Integers, Sequences\n\n")
    f.write(lit("ZetaT",z)+lit("GammaT",g))
    f.write("=============================================================================\n")
