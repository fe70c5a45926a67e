------------------------------- MODULE Frame --------------------------------
(***************************************************************************)
(* Memory as seen by the caller.  Every argument is a buffer somewhere in  *)
(* a sea of bytes that are not the callee's.  A call reads bytes of its    *)
(* buffers, writes every byte of every output buffer and nothing else.     *)
(*                                                                         *)
(* Model checking (MInit/MNext): a callee that moves W bytes at a time and *)
(* finishes with an overlapping block or byte by byte, for every length,   *)
(* start and gap.  Generation (GInit/GNext): placements of the arguments   *)
(* for the harness.  Init/Next accepts recorded calls: `native' ones       *)
(* between inaccessible pages, `traced' ones with every access, `checked'  *)
(* ones in a program that compares every access with the objects that     *)
(* exist, so that the callee's working storage is a buffer like any other. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANTS W, MaxLen, MaxGap, Shifts
VARIABLES l, memo, mem, s
vars == <<l, memo, mem, s>>
\* --- sizes of the buffers of every operation, outputs first
PK(k) == 384 * k + 32
SK(k) == 768 * k + 96
CT(k) == IF k = 4 THEN 1568 ELSE 320 * k + 128
Outs(op, k) == CASE op \in {"keypair_derand", "keypair"} -> <<PK(k), SK(k)>>
                 [] op \in {"enc_derand", "enc"}         -> <<CT(k), 32>>
                 [] op = "dec"                           -> <<32>>
Ins(op, k) == CASE op = "keypair_derand" -> <<64>>
                [] op = "enc_derand"     -> <<PK(k), 32>>
                [] op = "enc"            -> <<PK(k)>>
                [] op = "dec"            -> <<CT(k), SK(k)>>
                [] OTHER                 -> << >>
----------------------------------------------------------------------------
\* model: input at a..a+n-1, output at b..b+n-1, everything else forbidden
MInit == \E n \in 0..MaxLen, g1 \in 0..MaxGap, g2 \in 0..MaxGap, over \in BOOLEAN :
           /\ s = [n |-> n, a |-> g1, b |-> g1 + n + g2, i |-> 0, over |-> over] /\ l = 0
           /\ mem = [x \in 0..(g1 + n + g2 + n + MaxGap) |-> "old"] /\ memo = {}      \* memo: addresses read
Move(j, n) == /\ memo' = memo \cup ((s.a + j)..(s.a + j + n - 1))
              /\ mem' = [x \in DOMAIN mem |-> IF x \in (s.b + j)..(s.b + j + n - 1) THEN "new" ELSE mem[x]]
MNext == /\ s.i < s.n
         /\ IF s.i + W <= s.n THEN Move(s.i, W) /\ s' = [s EXCEPT !.i = @ + W]
            ELSE IF s.over /\ s.n >= W THEN Move(s.n - W, W) /\ s' = [s EXCEPT !.i = s.n]
            ELSE Move(s.i, 1) /\ s' = [s EXCEPT !.i = @ + 1]
         /\ UNCHANGED l
InFrame == /\ memo \subseteq s.a..(s.a + s.n - 1)
           /\ \A x \in DOMAIN mem : mem[x] = "new" => x \in s.b..(s.b + s.n - 1)
MInv == InFrame /\ (s.i = s.n => \A x \in s.b..(s.b + s.n - 1) : mem[x] = "new")
----------------------------------------------------------------------------
\* generation: for each of up to four arguments the side of the inaccessible page and the distance to it
Sides == {"start", "end"}
GInit == s = << >> /\ l = 0 /\ memo = {} /\ mem = {}
GNext == \/ Len(s) < 4 /\ (\E d \in Sides, h \in Shifts : s' = Append(s, [side |-> d, shift |-> h])) /\ UNCHANGED <<l, memo, mem>>
         \/ Len(s) = 4 /\ l = 0 /\ PrintT("@B " \o ToJson(s)) /\ l' = 1 /\ UNCHANGED <<memo, mem, s>>
----------------------------------------------------------------------------
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ memo = << >> /\ mem = {} /\ s = {}
Sizes(e) == e.sizes = Outs(e.op, e.k) \o Ins(e.op, e.k)
\* intervals <<lo, hi>> relative to the buffer
Within(iv, n) == \A j \in DOMAIN iv : 0 <= iv[j][1] /\ iv[j][2] <= n
TracedOk(e) ==
  LET o == Outs(e.op, e.k)  i == Ins(e.op, e.k) IN
  /\ \A j \in DOMAIN o : e.stores[j] = << <<0, o[j]>> >> /\ Within(e.loads[j], o[j])
  /\ \A j \in DOMAIN i : e.stores[Len(o) + j] = << >> /\ Within(e.loads[Len(o) + j], i[j])
\* nothing around any buffer changed, no input changed, and the result is that of the same call placed anywhere else
NativeOk(e) == \A j \in DOMAIN e.changed : e.changed[j] = 0
CheckedOk(e) == e.clean = 1 /\ NativeOk(e)
Ok(e) == /\ e.st = 0 /\ Sizes(e)
         /\ (CASE e.kind = "traced" -> TracedOk(e) [] e.kind = "checked" -> CheckedOk(e) [] OTHER -> NativeOk(e))
         /\ IF e.call \in DOMAIN memo THEN memo[e.call] = e.res /\ UNCHANGED memo ELSE memo' = (e.call :> e.res) @@ memo
Next == l <= Len(Trace) /\ (IF Trace[l].op = "reset" THEN memo' = << >> ELSE Ok(Trace[l])) /\ l' = l + 1 /\ UNCHANGED <<mem, s>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
