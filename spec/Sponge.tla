------------------------------- MODULE Sponge -------------------------------
(***************************************************************************)
(* The incremental hashing interface as a protocol: init, absorb any       *)
(* pieces, finalize, squeeze any pieces; or absorb_once; whole-block       *)
(* squeezing wherever the output stands at a block boundary.  Two handles  *)
(* are used in any interleaving and may be copied into one another.        *)
(*                                                                         *)
(* Each handle carries the abstract state (bytes absorbed, bytes squeezed) *)
(* and the position counter `pos' and permutation count an incremental     *)
(* implementation keeps; Inv says the counter arithmetic is right for      *)
(* every choice of pieces.  Complete behaviours go to the harness.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Rates, Handles, MaxOps, MaxStarts, MaxMsg, MaxOut, Printing

Fresh == [ph |-> "none", r |-> 0, msg |-> 0, out |-> 0, pos |-> 0, perm |-> 0]
VARIABLES h, hist
vars == <<h, hist>>
Init == h = [x \in Handles |-> Fresh] /\ hist = << >>
\* piece sizes around which block arithmetic can go wrong
Sizes(r, pos) == {0, 1, 7, 8, 9, r - pos - 1, r - pos, r - pos + 1, r - 1, r, r + 1, 2*r - pos, 2*r, 2*r + 1, 3*r} \cap Nat
Log(e) == hist' = Append(hist, e)
Starts == Cardinality({i \in DOMAIN hist : hist[i].op \in {"init", "once", "copy"}}) < MaxStarts
Set(x, n) == h' = [h EXCEPT ![x] = n]
NewMsg(x, r) == [Fresh EXCEPT !.r = r]
DoInit == Starts /\ \E x \in Handles, r \in Rates :
  /\ h[x].ph \in {"none", "out"} \/ Cardinality(Handles) > 1
  /\ Set(x, [NewMsg(x, r) EXCEPT !.ph = "in"]) /\ Log([op |-> "init", x |-> x, r |-> r])
DoAbsorb == \E x \in Handles : h[x].ph = "in" /\ \E n \in Sizes(h[x].r, h[x].pos) :
  /\ h[x].msg + n <= MaxMsg
  /\ Set(x, [h[x] EXCEPT !.msg = @ + n, !.pos = (@ + n) % h[x].r, !.perm = @ + ((h[x].pos + n) \div h[x].r)])
  /\ Log([op |-> "absorb", x |-> x, n |-> n])
DoFinal == \E x \in Handles : h[x].ph = "in" /\ Set(x, [h[x] EXCEPT !.ph = "out", !.pos = h[x].r]) /\ Log([op |-> "finalize", x |-> x])
DoOnce == Starts /\ \E x \in Handles, r \in Rates : \E n \in Sizes(r, 0) :
  /\ Set(x, [NewMsg(x, r) EXCEPT !.ph = "out", !.msg = n, !.pos = r, !.perm = n \div r]) /\ Log([op |-> "once", x |-> x, r |-> r, n |-> n])
\* squeezing n bytes at position pos: pos runs 1..r inside a block, r means exhausted
Adv(s, n) == IF n = 0 THEN s
             ELSE LET t == s.pos + n IN [s EXCEPT !.out = @ + n, !.perm = @ + ((t - 1) \div s.r), !.pos = ((t - 1) % s.r) + 1]
DoSqueeze == \E x \in Handles : h[x].ph = "out" /\ \E n \in Sizes(h[x].r, h[x].pos) :
  /\ h[x].out + n <= MaxOut /\ Set(x, Adv(h[x], n)) /\ Log([op |-> "squeeze", x |-> x, n |-> n])
DoBlocks == \E x \in Handles : h[x].ph = "out" /\ h[x].pos = h[x].r /\ \E nb \in 0..3 :
  /\ h[x].out + nb * h[x].r <= MaxOut
  /\ Set(x, [h[x] EXCEPT !.out = @ + nb * h[x].r, !.perm = @ + nb]) /\ Log([op |-> "blocks", x |-> x, n |-> nb])
DoCopy == Starts /\ \E x \in Handles, y \in Handles : x # y /\ h[x].ph # "none" /\ Set(y, h[x]) /\ Log([op |-> "copy", x |-> x, y |-> y])
Finish == Len(hist) = MaxOps /\ Printing /\ PrintT("@B " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxOps
Next == \/ (More /\ DoInit) \/ (More /\ DoAbsorb) \/ (More /\ DoFinal) \/ (More /\ DoOnce)
        \/ (More /\ DoSqueeze) \/ (More /\ DoBlocks) \/ (More /\ DoCopy) \/ Finish
CeilDiv(a, b) == (a + b - 1) \div b
View == h
Inv == \A x \in Handles : LET s == h[x] IN
   CASE s.ph = "in"  -> s.pos = s.msg % s.r /\ s.perm = s.msg \div s.r
     [] s.ph = "out" -> s.perm = (s.msg \div s.r) + CeilDiv(s.out, s.r) /\ s.pos = IF s.out % s.r = 0 THEN s.r ELSE s.out % s.r
     [] OTHER        -> TRUE
=============================================================================
