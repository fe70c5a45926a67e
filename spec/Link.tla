------------------------------- MODULE Link --------------------------------
(***************************************************************************)
(* All builds in one process (README, "Shared libraries").                 *)
(*                                                                         *)
(* A library is what an ELF dynamic linker sees of it: the symbols it      *)
(* exports, the symbols it leaves to other modules, and those of its own   *)
(* symbols it reaches through the dynamic linker, which any module loaded  *)
(* earlier can take over.  Libraries are loaded one by one into the global *)
(* scope; a reference is bound, at any time after that (lazy binding), to  *)
(* the first module in load order that exports the name.                   *)
(*                                                                         *)
(* The facts about the libraries of the tree under test are read from      *)
(* FACTS; names, providers and sizes below are what the documentation      *)
(* promises.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
F == JsonDeserialize(IOEnv.FACTS)
(***************************************************************************)
(* The promise.                                                            *)
(***************************************************************************)
Ks == {2, 3, 4}
Impls == {"ref", "avx2"}
Alg(k) == CASE k = 2 -> "kyber512" [] k = 3 -> "kyber768" [] k = 4 -> "kyber1024"
KemOps == {"keypair_derand", "keypair", "enc_derand", "enc", "dec"}
FipsFns == {"shake128_init", "shake128_absorb", "shake128_finalize", "shake128_squeeze", "shake128_absorb_once", "shake128_squeezeblocks",
            "shake256_init", "shake256_absorb", "shake256_finalize", "shake256_squeeze", "shake256_absorb_once", "shake256_squeezeblocks",
            "shake128", "shake256", "sha3_256", "sha3_512"}
X4Fns == {"shake128x4_absorb_once", "shake128x4_squeezeblocks", "shake256x4_absorb_once", "shake256x4_squeezeblocks", "shake128x4", "shake256x4"}
(* a library is named by its namespace *)
KemNs(i, k) == "pqcrystals_" \o Alg(k) \o "_" \o i \o "_"
FipsNs(i) == "pqcrystals_kyber_fips202_" \o i \o "_"
X4Ns == "pqcrystals_kyber_fips202x4_avx2_"
LibIds == {<<"kem", i, k>> : i \in Impls, k \in Ks} \cup {<<"fips", i, 0>> : i \in Impls} \cup {<<"x4", "avx2", 0>>}
Ns(l) == CASE l[1] = "kem" -> KemNs(l[2], l[3]) [] l[1] = "fips" -> FipsNs(l[2]) [] OTHER -> X4Ns
Api(l) == {Ns(l) \o n : n \in (CASE l[1] = "kem" -> KemOps [] l[1] = "fips" -> FipsFns [] OTHER -> X4Fns)}
(* what a library may take from outside, besides the C library, and from whom *)
Uses(l) == IF l[1] # "kem" THEN {}
           ELSE {<<"fips", l[2], 0>>} \cup (IF l[2] = "avx2" THEN {<<"x4", "avx2", 0>>} ELSE {})
(* sizes: FIPS 203, table 3, from the parameters *)
Du(k) == IF k = 4 THEN 11 ELSE 10
Dv(k) == IF k = 4 THEN 5 ELSE 4
Size(what, k) == CASE what = "PUBLICKEYBYTES" -> 384 * k + 32 [] what = "SECRETKEYBYTES" -> 768 * k + 96
                   [] what = "CIPHERTEXTBYTES" -> 32 * ((Du(k) * k) + Dv(k)) [] what = "BYTES" -> 32
                   [] what = "KEYPAIRCOINBYTES" -> 64 [] what = "ENCCOINBYTES" -> 32
(***************************************************************************)
(* The tree's libraries.  Lib(l): [def, need, own] as sets of strings.     *)
(***************************************************************************)
Id(x) == <<x.kind, x.impl, x.k>>
Lib(l) == LET x == CHOOSE x \in ToSet(F.libs) : Id(x) = l IN [def |-> ToSet(x.def), need |-> ToSet(x.need), own |-> ToSet(x.own)]
Libs == TLCEval([l \in LibIds |-> Lib(l)])
App == [def |-> {"randombytes"}, need |-> {}, own |-> {}]
InNs(s, ns) == Len(s) > Len(ns) /\ SubSeq(s, 1, Len(ns)) = ns
(* what it may take from outside: the functions listed above, and any other its provider's header declares in its namespace *)
Known(p) == Api(p) \cup {s \in UNION {ToSet(d.names) : d \in {d \in ToSet(F.decl) : <<d.kind, d.impl, d.k>> = p}} : InNs(s, Ns(p))}
NeedsOk(l) == UNION {Known(p) : p \in Uses(l)} \cup (IF l[1] = "kem" THEN {"randombytes"} ELSE {})
(* every exported name is in the library's namespace *)
OwnNames == \A l \in LibIds : \A s \in Libs[l].def : InNs(s, Ns(l))
(* every promised function is there, and every declared one *)
Declared == /\ \A l \in LibIds : Api(l) \subseteq Libs[l].def
            /\ \A d \in ToSet(F.decl) : Api(<<d.kind, d.impl, d.k>>) \subseteq ToSet(d.names) /\ ToSet(d.names) \subseteq Libs[<<d.kind, d.impl, d.k>>].def
(* nothing is taken from outside under another name *)
Imports == \A l \in LibIds : Libs[l].need \subseteq NeedsOk(l)
(* no two objects of a static program define the same symbol *)
Objs == ToSet(F.objs)
Static == \A o \in Objs : \A p \in Objs : o.obj # p.obj => ToSet(o.def) \cap ToSet(p.def) = {}
(* published sizes *)
Sizes == \A z \in ToSet(F.sizes) : z.value = Size(z.what, z.k)
(* every published size was found, in every place that must publish it *)
Places == {"api.h/" \o i : i \in Impls} \cup {"kem.h/" \o i : i \in Impls}
SizeNames(p) == {"PUBLICKEYBYTES", "SECRETKEYBYTES", "CIPHERTEXTBYTES", "BYTES"} \cup (IF SubSeq(p, 1, 3) = "api" THEN {"KEYPAIRCOINBYTES", "ENCCOINBYTES"} ELSE {})
AllSizes == \A p \in Places : \A k \in Ks : \A w \in SizeNames(p) : \E z \in ToSet(F.sizes) : z.place = p /\ z.k = k /\ z.what = w
(***************************************************************************)
(* The process.                                                            *)
(***************************************************************************)
VARIABLES order,      \* modules in the global scope, in load order; "app" provides randombytes
          used        \* what has been called, for generated behaviours
vars == <<order, used>>
AppId == <<"app", "", 0>>
Mod(l) == IF l = AppId THEN App ELSE Libs[l]
Resolve(s) == LET js == {j \in 1..Len(order) : s \in Mod(order[j]).def} IN IF js = {} THEN << >> ELSE order[CHOOSE j \in js : \A h \in js : j <= h]
Provider(l, s) == IF s \in Libs[l].own THEN l
                  ELSE IF s = "randombytes" THEN AppId
                  ELSE LET ps == {p \in Uses(l) : InNs(s, Ns(p))} IN IF ps = {} THEN << >> ELSE CHOOSE p \in ps : TRUE
Loaded == ToSet(order)
(* whenever a reference can be bound, it is bound to the module meant *)
Bindings == \A l \in Loaded \ {AppId} : \A s \in Libs[l].need \cup Libs[l].own : Resolve(s) \in {<< >>, Provider(l, s)}
(* and once the modules a library uses are there, all its references can be bound *)
Complete == \A l \in Loaded \ {AppId} : (Uses(l) \cup {AppId}) \subseteq Loaded => \A s \in Libs[l].need \cup Libs[l].own : Resolve(s) # << >>
Init == order = << >> /\ used = << >>
Load(l) == l \notin Loaded /\ order' = Append(order, l) /\ used' = Append(used, [do |-> "load", kind |-> l[1], impl |-> l[2], k |-> l[3]])
Ready(l) == l \in Loaded /\ (Uses(l) \cup (IF l[1] = "kem" THEN {AppId} ELSE {})) \subseteq Loaded
Use(l) == Ready(l) /\ l # AppId /\ used' = Append(used, [do |-> "use", kind |-> l[1], impl |-> l[2], k |-> l[3]]) /\ UNCHANGED order
Next == \E l \in LibIds \cup {AppId} : Load(l)
Spec == Init /\ [][Next]_vars
CONSTANT MaxLoad
Bound == Len(order) <= MaxLoad
View == order
(***************************************************************************)
(* Generation: complete loading histories with uses in between.            *)
(***************************************************************************)
Fresh(l) == IF used = << >> THEN TRUE ELSE used[Len(used)] # [do |-> "use", kind |-> l[1], impl |-> l[2], k |-> l[3]]
Full == Len(order) = Cardinality(LibIds) + 1 /\ Len(used) >= 24
Finish == Full /\ PrintT("@B " \o ToJson([used |-> used])) /\ used' = Append(used, [do |-> "end", kind |-> "", impl |-> "", k |-> 0]) /\ UNCHANGED order
NextGen == IF Full THEN used[Len(used)].do # "end" /\ Finish
           ELSE \/ Next
                \/ \E l \in LibIds : Fresh(l) /\ Len(used) < 24 /\ Use(l)
SpecGen == Init /\ [][NextGen]_vars
=============================================================================
