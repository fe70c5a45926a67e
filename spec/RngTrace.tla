------------------------------ MODULE RngTrace ------------------------------
(***************************************************************************)
(* Recorded calls of rng.c against SP 800-90A CTR_DRBG (AES-256, no        *)
(* derivation function, no prediction resistance) and the expander's       *)
(* counter-mode stream.  Numbers that may exceed 31 bits are <<h, l>>,     *)
(* h * 2^24 + l (h itself below 2^31).                                     *)
(***************************************************************************)
EXTENDS Drbg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, d, x
vars == <<l, d, x>>
GenOk(e) ==
  LET nb == Blocks(e.n) IN
  /\ e.st = 0 /\ e.clean = 1
  /\ IF Small(e.n) THEN e.out = SubSeq(Stream(d.rk, d.v, nb[2]), 1, e.n[2])
     ELSE \* the first 16 bytes, and the last (n mod 16, or 16) plus the 16 before them
          /\ e.head = BlockAt(d.rk, d.v, <<0, 1>>)
          /\ LET k == IF e.n[2] % 16 = 0 THEN 16 ELSE e.n[2] % 16 IN
             e.tail = BlockAt(d.rk, d.v, Pred(nb)) \o SubSeq(BlockAt(d.rk, d.v, nb), 1, k)
Step(e) ==
  CASE e.op = "reset" -> d' = [rk |-> << >>, v |-> << >>] /\ x' = << >>
    [] e.op = "init" -> /\ e.clean = 1 /\ UNCHANGED x
                        /\ \E s \in {IF e.p = << >> THEN e.e ELSE XorB(e.e, e.p)} : d' = Update(KeySchedule(Zeros(32)), Zeros(16), s)
    [] e.op = "gen" -> GenOk(e) /\ UNCHANGED x /\ d' = Update(d.rk, AddPair(d.v, Blocks(e.n)), << >>)
    \* max: 8 bytes, big-endian; refused when 2^32 or more, and then nothing changes
    [] e.op = "xinit" -> /\ UNCHANGED d /\ e.clean = 1
                         /\ IF \E i \in 1..4 : e.max[i] # 0 THEN e.st = -1 /\ e.same = 1 /\ UNCHANGED x
                            ELSE /\ e.st = 0
                                 /\ x' = (e.x :> [rk |-> KeySchedule(e.seed), c |-> e.div \o (SubSeq(e.max, 5, 8) \o Zeros(4)),
                                                  pos |-> <<0, 0>>, max |-> Norm(e.max[5], (e.max[6] * 65536) + ((e.max[7] * 256) + e.max[8]))]) @@ x
    \* n: <<h, l>>; big: n does not even fit that
    [] e.op = "xget" -> /\ UNCHANGED d /\ e.clean = 1
                        /\ LET s == x[e.x] IN
                           IF e.null = 1 THEN e.st = -2 /\ e.same = 1 /\ UNCHANGED x
                           ELSE IF e.big = 1 \/ ~Lt(Add(s.pos, e.n), s.max) THEN e.st = -3 /\ e.same = 1 /\ UNCHANGED x
                           ELSE /\ e.st = 0 /\ x' = [x EXCEPT ![e.x].pos = Add(s.pos, e.n)]
                                /\ LET k == Len(e.out)       \* the last k bytes of the request
                                       en == Add(s.pos, e.n)  z == (en[1] * 1048576) + ((en[2] + 15) \div 16)
                                       w == ((k + 15) \div 16) + 1  a == IF z > w THEN z - w ELSE 0
                                       str == FoldLeft(LAMBDA t, b : t \o Encrypt(s.rk, SubSeq(s.c, 1, 12) \o AddBE(Zeros(4), a + b)), << >>, [b \in 1..(z - a) |-> b - 1])
                                       over == (16 - (en[2] % 16)) % 16
                                   IN e.out = SubSeq(str, Len(str) - over - k + 1, Len(str) - over)
    [] OTHER -> FALSE
Init == l = 1 /\ d = [rk |-> << >>, v |-> << >>] /\ x = << >>
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
