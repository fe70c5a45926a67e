----------------------------- MODULE KemSystem ------------------------------
(***************************************************************************)
(* The KEM as a system: histories of API calls by users who share keys,    *)
(* alter ciphertexts, re-encode keys and splice secret keys together.      *)
(* Hash functions are symbolic (random oracles: equal terms mean equal     *)
(* bytes, different terms different bytes), so the model says exactly      *)
(* which observable values coincide.  It does not mention implementations, *)
(* threads or addresses: nothing may depend on them.                       *)
(*                                                                         *)
(*   pk   <<"pk",k,d>> made from coin d; <<"npk",k,d>> the same key with   *)
(*        coefficients encoded above the modulus                           *)
(*   sk   <<"sk",k,s,p,h,z>>: secret vector, stored pk, stored hash, z     *)
(*   ct   <<"ct",p,m,h>> = PKE encryption of m under p with G(m||h);       *)
(*        <<"alt",c,X>> = c changed by the xor masks in X                  *)
(*   ss   <<"K",m,h>> or <<"J",z,c>>                                       *)
(* The randomness source offers 32-byte chunks; chunk j is coin Tape(j).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ks, NCoin, NAlt, MaxLen, MaxEnv, MaxKeys, NTape, Printing

Coin(i) == <<"c", i>>
Tape(j) == Coin(((j - 1) % NCoin) + 1)
H(pk) == <<"H", pk>>
SVec(k, d, form) == <<"s", k, d, form>>
Canon(p) == IF p[1] = "npk" THEN <<"pk", p[2], p[3]>> ELSE p
KOf(x) == CASE x[1] \in {"pk", "npk", "sk"} -> x[2]
            [] x[1] = "ct" -> x[2][2]
            [] x[1] = "alt" -> x[2][2][2]
Alter(c, a) == IF c[1] = "ct" THEN <<"alt", c, {a}>>
               ELSE LET X == IF a \in c[3] THEN c[3] \ {a} ELSE c[3] \cup {a}
                    IN IF X = {} THEN c[2] ELSE <<"alt", c[2], X>>
EncCt(p, m) == <<"ct", Canon(p), m, H(p)>>
EncSs(p, m) == <<"K", m, H(p)>>
\* Fujisaki-Okamoto with implicit rejection on terms
Accepts(sk, c) == /\ c[1] = "ct"
                  /\ c[2] = <<"pk", sk[2], sk[3][3]>>          \* decrypts to c[3]
                  /\ c = <<"ct", Canon(sk[4]), c[3], sk[5]>>   \* re-encryption reproduces c
DecSs(sk, c) == IF Accepts(sk, c) THEN <<"K", c[3], sk[5]>> ELSE <<"J", sk[6], c>>

\* system state: what the users hold, and how many chunks the source has given
St0 == [pks |-> << >>, sks |-> << >>, cts |-> << >>, pos |-> 0]

\* the effect of operation e: new state, the observable terms in the order the
\* harness reports them, bytes drawn from the randomness source
KeyGen(S, k, d, z, n) ==
  LET pk == <<"pk", k, d>>  s == SVec(k, d, 0)  sk == <<"sk", k, s, pk, H(pk), z>> IN
  [st |-> [S EXCEPT !.pks = Append(@, pk), !.sks = Append(@, sk), !.pos = @ + n],
   outs |-> <<d, z, pk, s, pk, H(pk), z>>, draw |-> 32 * n]
Encap(S, p, m, n) ==
  [st |-> [S EXCEPT !.cts = Append(@, EncCt(p, m)), !.pos = @ + n],
   outs |-> <<m, p, EncCt(p, m), EncSs(p, m)>>, draw |-> 32 * n]
Splice(a, b, part) == CASE part = 1 -> [a EXCEPT ![3] = b[3]]
                        [] part = 2 -> [a EXCEPT ![4] = b[4]]
                        [] part = 3 -> [a EXCEPT ![5] = b[5]]
                        [] OTHER    -> [a EXCEPT ![6] = b[6]]
Env(S, f, x, o) == [st |-> [S EXCEPT ![f] = Append(@, x)], outs |-> o, draw |-> 0]
Apply(S, e) ==
  CASE e.op = "kgd"  -> KeyGen(S, e.k, Coin(e.d), Coin(e.z), 0)
    [] e.op = "kg"   -> KeyGen(S, e.k, Tape(S.pos + 1), Tape(S.pos + 2), 2)
    [] e.op = "encd" -> Encap(S, S.pks[e.p], Coin(e.m), 0)
    [] e.op = "enc"  -> Encap(S, S.pks[e.p], Tape(S.pos + 1), 1)
    [] e.op = "dec"  -> [st |-> S, outs |-> <<S.cts[e.c], DecSs(S.sks[e.s], S.cts[e.c])>>, draw |-> 0]
    [] e.op = "alt"  -> LET x == Alter(S.cts[e.c], e.a) IN Env(S, "cts", x, <<x>>)
    [] e.op = "npk"  -> LET p == S.pks[e.p]  x == <<"npk", p[2], p[3]>> IN Env(S, "pks", x, <<x>>)
    [] e.op = "nsk"  -> LET s == S.sks[e.s]  x == [s EXCEPT ![3] = [@ EXCEPT ![4] = 1]] IN Env(S, "sks", x, <<x[3]>>)
    [] e.op = "mix"  -> LET x == Splice(S.sks[e.s], S.sks[e.t], e.part) IN Env(S, "sks", x, <<x[3], x[4], x[5], x[6]>>)
    [] e.op = "pkof" -> LET x == S.sks[e.s][4] IN Env(S, "pks", x, <<x>>)      \* publish the stored key
    [] e.op = "setp" -> LET s == S.sks[e.s]  p == S.pks[e.p]                   \* store p and its hash in a key
                            x == [s EXCEPT ![4] = p, ![5] = H(p)] IN Env(S, "sks", x, <<x[4]>>)
    [] e.op = "rewind" -> [st |-> [S EXCEPT !.pos = 0], outs |-> << >>, draw |-> 0]

IsEnv(e) == e.op \notin {"kgd", "kg", "encd", "enc", "dec"}
----------------------------------------------------------------------------
VARIABLES st, hist, outs
vars == <<st, hist, outs>>
Init == st = St0 /\ hist = << >> /\ outs = << >>
Do(e) == LET r == Apply(st, e) IN st' = r.st /\ hist' = Append(hist, e) /\ outs' = Append(outs, r.outs)
NEnv == Cardinality({i \in DOMAIN hist : IsEnv(hist[i])})
SameK(x, y) == KOf(x) = KOf(y)
\* users keep to the documented sizes: a key and a ciphertext of one parameter set
DoKeyGen == /\ Cardinality({i \in DOMAIN hist : hist[i].op \in {"kgd", "kg"}}) < MaxKeys
            /\ \/ \E k \in Ks, d \in 1..NCoin, z \in 1..NCoin : Do([op |-> "kgd", k |-> k, d |-> d, z |-> z])
               \/ \E k \in Ks : st.pos + 2 <= NTape /\ Do([op |-> "kg", k |-> k])
DoEnc == \E p \in DOMAIN st.pks : \/ \E m \in 1..NCoin : Do([op |-> "encd", p |-> p, m |-> m])
                                  \/ st.pos + 1 <= NTape /\ Do([op |-> "enc", p |-> p])
DoDec == \E s \in DOMAIN st.sks, c \in DOMAIN st.cts : SameK(st.sks[s], st.cts[c]) /\ Do([op |-> "dec", s |-> s, c |-> c])
DoEnv == /\ NEnv < MaxEnv
         /\ \/ \E c \in DOMAIN st.cts, a \in 1..NAlt : Do([op |-> "alt", c |-> c, a |-> a])
            \/ \E p \in DOMAIN st.pks : st.pks[p][1] = "pk" /\ Do([op |-> "npk", p |-> p])
            \/ \E s \in DOMAIN st.sks : st.sks[s][3][4] = 0 /\ Do([op |-> "nsk", s |-> s])
            \/ \E s \in DOMAIN st.sks, t \in DOMAIN st.sks, part \in 1..4 :
                 s # t /\ SameK(st.sks[s], st.sks[t]) /\ st.sks[s][part+2] # st.sks[t][part+2]
                 /\ Do([op |-> "mix", s |-> s, t |-> t, part |-> part])
            \/ \E s \in DOMAIN st.sks, p \in DOMAIN st.pks :
                 SameK(st.sks[s], st.pks[p]) /\ st.sks[s][4] # st.pks[p] /\ Do([op |-> "setp", s |-> s, p |-> p])
            \/ st.pos > 0 /\ Do([op |-> "rewind"])
\* a complete history is handed to the harness, which performs it on the code
Finish == Len(hist) = MaxLen /\ Printing /\ PrintT("@B " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxLen
Next == \/ (More /\ DoKeyGen)
        \/ (More /\ DoEnc)
        \/ (More /\ DoDec)
        \/ (More /\ DoEnv)
        \/ Finish
----------------------------------------------------------------------------
\* the properties, stated on histories
Op(i) == hist[i]
IsDec(i) == Op(i).op = "dec"
IsEnc(i) == Op(i).op \in {"encd", "enc"}
\* objects by index never change, so the final lists describe every step
SkAt(i) == st.sks[Op(i).s]
CtAt(i) == st.cts[Op(i).c]
SsAt(i) == outs[i][Len(outs[i])]
\* C01: an honest ciphertext decapsulates to the encapsulated secret
Agreement == \A i \in DOMAIN hist, j \in DOMAIN hist :
  (IsEnc(i) /\ IsDec(j) /\ CtAt(j) = outs[i][3] /\ SkAt(j)[4] = outs[i][2]
    /\ SkAt(j)[5] = H(outs[i][2]) /\ <<"pk", KOf(SkAt(j)), SkAt(j)[3][3]>> = Canon(outs[i][2])) => SsAt(j) = SsAt(i)
\* C02: a ciphertext no encapsulation to this key produced gives a secret bound to all of it and to z
Rejection == \A j \in DOMAIN hist :
  (IsDec(j) /\ CtAt(j)[1] = "alt") => /\ SsAt(j) = <<"J", SkAt(j)[6], CtAt(j)>>
                                      /\ \A i \in DOMAIN hist : IsEnc(i) => SsAt(i) # SsAt(j)
\* different (key, ciphertext) never share a secret unless both are the same K
Binding == \A i \in DOMAIN hist, j \in DOMAIN hist :
  (IsDec(i) /\ IsDec(j) /\ SsAt(i) = SsAt(j)) => \/ (CtAt(i) = CtAt(j) /\ SkAt(i)[6] = SkAt(j)[6])
                                               \/ (Accepts(SkAt(i), CtAt(i)) /\ Accepts(SkAt(j), CtAt(j)))
\* C14: between rewinds no chunk is handed out twice and none is skipped
Draws(i) == Apply(st, Op(i)).draw
LastRewind == LET R == {i \in DOMAIN hist : Op(i).op = "rewind"} IN IF R = {} THEN 0 ELSE CHOOSE i \in R : \A j \in R : j <= i
Sum(f, S) == LET RECURSIVE T(_) T(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN f[x] + T(X \ {x}) IN T(S)
DrawN(e) == CASE e.op = "kg" -> 2 [] e.op = "enc" -> 1 [] OTHER -> 0
FreshOnce == st.pos = Sum([i \in DOMAIN hist |-> DrawN(Op(i))], {i \in DOMAIN hist : i > LastRewind})
Inv == Agreement /\ Rejection /\ Binding /\ FreshOnce
=============================================================================
