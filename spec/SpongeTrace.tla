----------------------------- MODULE SpongeTrace ----------------------------
(***************************************************************************)
(* Recorded hashing calls against FIPS 202.  The state of a handle is the  *)
(* message absorbed so far, or the output stream: its bytes so far, the    *)
(* Keccak state that continues it and how much has been read.  Every       *)
(* output must be the next bytes of the stream.                            *)
(***************************************************************************)
EXTENDS KeccakFast, Sampling, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h
vars == <<l, h>>
Init == l = 1 /\ h = << >>
\* absorb a padded message
Absorb(p, r) == FoldLeft(LAMBDA a, k : FastKeccakF(XorBlock(a, p, (k-1)*r, r)), ZeroState, [k \in 1..(Len(p) \div r) |-> k])
Stream(in, r, d) == Force(LAMBDA ks : [ks |-> ks, str |-> Block(ks, r)], Absorb(Pad(in, r, d), r))
Extend(s, r, n) == FoldLeft(LAMBDA t, b : Force(LAMBDA k : [ks |-> k, str |-> t.str \o Block(k, r)], FastKeccakF(t.ks)),
                            s, [b \in 1..(IF n <= Len(s.str) THEN 0 ELSE (n - Len(s.str) + r - 1) \div r) |-> b])
Hash(in, r, d, n) == SubSeq(Extend(Stream(in, r, d), r, n).str, 1, n)
Put(x, v) == h' = (x :> v) @@ h
Read(e, s, n) ==     \* n bytes from handle state s
  \E s2 \in {Extend(s.s, s.r, s.off + n)} :
     e.out = SubSeq(s2.str, s.off + 1, s.off + n) /\ Put(e.x, [s EXCEPT !.s = s2, !.off = s.off + n])
Step(e) ==
  CASE e.op = "init"     -> Put(e.x, [ph |-> "in", r |-> e.r, msg |-> << >>])
    [] e.op = "absorb"   -> h[e.x].ph = "in" /\ Put(e.x, [h[e.x] EXCEPT !.msg = @ \o e.in])
    [] e.op = "finalize" -> h[e.x].ph = "in" /\ Put(e.x, [ph |-> "out", r |-> h[e.x].r, s |-> Stream(h[e.x].msg, h[e.x].r, 31), off |-> 0])
    [] e.op = "once"     -> Put(e.x, [ph |-> "out", r |-> e.r, s |-> Stream(e.in, e.r, 31), off |-> 0])
    [] e.op = "squeeze"  -> h[e.x].ph = "out" /\ Len(e.out) = e.n /\ Read(e, h[e.x], e.n)
    [] e.op = "blocks"   -> h[e.x].ph = "out" /\ h[e.x].off % h[e.x].r = 0 /\ Len(e.out) = e.n * h[e.x].r /\ Read(e, h[e.x], e.n * h[e.x].r)
    [] e.op = "copy"     -> Put(e.y, h[e.x])
    [] e.op = "hash"     -> \* one-shot: rate, domain byte, message, output
                            UNCHANGED h /\ e.out = Hash(e.in, e.r, e.d, Len(e.out))
    [] e.op = "x4"       -> UNCHANGED h /\ \A j \in 1..4 : e.outs[j] = Hash(e.ins[j], e.r, 31, e.n)
    [] e.op = "reset"    -> h' = << >>
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
