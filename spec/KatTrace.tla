------------------------------ MODULE KatTrace ------------------------------
(***************************************************************************)
(* A run of the known-answer generator: the lines of its two files, the    *)
(* calls it made to the library (when the library is a stand-in), its exit *)
(* status.  Lines arrive as [key, v]; a line that is not exactly what the  *)
(* format prescribes for some key and value has key "bad".                 *)
(***************************************************************************)
EXTENDS MLKEM, Drbg, Json, IOUtils
CONSTANT Count
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, run, at, i, d, seeds, want, calls
vars == <<l, run, at, i, d, seeds, want, calls>>
Fixed == [j \in 1..48 |-> j - 1]
O == [real |-> TRUE, tbl |-> << >>]
ReqOrder == <<"count", "seed", "pk", "sk", "ct", "ss", "blank">>
Name(k) == IF k = 2 THEN "Kyber512" ELSE IF k = 3 THEN "Kyber768" ELSE "Kyber1024"
NoCoins == [coins |-> << >>, m |-> << >>]
Init == l = 1 /\ run = [k |-> 0, stub |-> 0] /\ at = "new" /\ i = 0 /\ d = << >> /\ seeds = << >> /\ want = << >> /\ calls = << >>
\* ---- the request file: at = the key expected next
ReqLine(e) ==
  LET p == SelectInSeq(ReqOrder, LAMBDA s : s = at) IN
  /\ e.key = at
  /\ CASE at = "count" -> e.n = i /\ UNCHANGED <<d, seeds>>
       [] at = "seed"  -> e.v = Generate(d, 48) /\ seeds' = Append(seeds, e.v) /\ d' = After(d, 48)
       [] OTHER        -> e.v = << >> /\ UNCHANGED <<d, seeds>>
  /\ IF p < 7 THEN at' = ReqOrder[p + 1] /\ i' = i
     ELSE IF i + 1 < Count THEN at' = "count" /\ i' = i + 1 ELSE at' = "reqdone" /\ i' = 0
  /\ UNCHANGED <<run, want, calls>>
\* ---- calls of the stand-in library, in the order they were made.  draws: what each request for randomness returned
DrawsOk(s0, draws) == FoldLeft(LAMBDA a, x : [ok |-> a.ok /\ x = Generate(a.s, Len(x)), s |-> After(a.s, Len(x))], [ok |-> TRUE, s |-> s0], draws)
CallOk(e) ==
  LET r == calls[Len(calls)]
      s0 == IF e.f = "keypair" THEN Instantiate(seeds[i + 1], << >>) ELSE d
  IN /\ \E a \in {DrawsOk(s0, e.draws)} : a.ok /\ d' = a.s
     /\ CASE e.f = "keypair" -> at \in {"reqdone", "dec"} /\ i < Count
                                /\ calls' = Append(calls, [pk |-> e.pk, sk |-> e.sk, ct |-> 0, ss |-> 0])
          [] e.f = "enc"     -> at = "keypair" /\ e.pk = r.pk /\ calls' = [calls EXCEPT ![Len(calls)].ct = e.ct, ![Len(calls)].ss = e.ss]
          [] e.f = "dec"     -> at = "enc" /\ e.sk = r.sk /\ e.ct = r.ct /\ UNCHANGED calls
     /\ at' = IF e.ret # 0 \/ (e.f = "dec" /\ e.ss # r.ss) THEN "failed" ELSE e.f
     /\ i' = IF e.f = "dec" THEN i + 1 ELSE i
  /\ UNCHANGED <<run, seeds, want>>
\* ---- the response file
RspOrder == <<"head", "blank0", "count", "seed", "pk", "sk", "ct", "ss", "blank">>
Expect(key) == IF run.stub = 1 THEN calls[i + 1][key] ELSE want[key]
RspLine(e) ==
  LET p == SelectInSeq(RspOrder, LAMBDA s : s = at) IN
  /\ e.key = (IF at = "blank0" THEN "blank" ELSE at)
  /\ CASE at = "head"  -> e.txt = Name(run.k)
       [] at = "count" -> e.n = i
       [] at = "seed"  -> e.v = seeds[i + 1]
       [] at \in {"blank", "blank0"} -> TRUE
       [] OTHER        -> e.v = Expect(at)
  /\ IF p < 9 THEN at' = RspOrder[p + 1] /\ i' = i
     ELSE IF i + 1 < Count THEN at' = "count" /\ i' = i + 1 ELSE at' = "rspdone" /\ i' = i
  /\ UNCHANGED <<run, d, seeds, want, calls>>
\* what the library computes for the record about to be reported.  coins and message are the generator's;
\* full: the specification computes the record itself; otherwise w: what both implementations returned for these coins
Record(e) ==
  /\ at = "count" /\ run.stub = 0 /\ e.coins = Generate(Instantiate(seeds[i + 1], << >>), 64)
  /\ e.m = Generate(After(Instantiate(seeds[i + 1], << >>), 64), 32)
  /\ IF e.full = 1
     THEN \E kp \in {KeyPair(O, run.k, e.coins)} : \E en \in {Encaps(O, run.k, kp[1], e.m)} :
            want' = [pk |-> kp[1], sk |-> kp[2], ct |-> en[1], ss |-> en[2]] /\ Decaps(O, run.k, kp[2], en[1]) = en[2]
     ELSE want' = e.w /\ e.dec = e.w.ss
  /\ UNCHANGED <<run, at, i, d, seeds, calls>>
Step(e) ==
  CASE e.op = "run"  -> at \in {"new", "over"} /\ run' = [k |-> e.k, stub |-> e.stub] /\ at' = "count" /\ i' = 0 /\ d' = Instantiate(Fixed, << >>)
                        /\ seeds' = << >> /\ want' = << >> /\ calls' = << >>
    [] e.op = "req"  -> ReqLine(e)
    [] e.op = "call" -> CallOk(e)
    [] e.op = "rsp0" -> at = (IF run.stub = 1 THEN "dec" ELSE "reqdone") /\ (run.stub = 1 => i = Count) /\ at' = "head" /\ i' = 0 /\ UNCHANGED <<run, d, seeds, want, calls>>
    [] e.op = "rec"  -> Record(e)
    [] e.op = "rsp"  -> RspLine(e)
    \* success only after a complete response file; failure of the library, or of opening a file, has its code
    [] e.op = "exit" -> /\ CASE at = "rspdone" -> e.code = 0
                             [] at = "failed"  -> e.code = 252
                             [] OTHER          -> FALSE
                        /\ at' = "over" /\ UNCHANGED <<run, i, d, seeds, want, calls>>
    [] e.op = "nofile" -> at \in {"new", "over"} /\ e.code = 255 /\ UNCHANGED <<run, at, i, d, seeds, want, calls>>
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
