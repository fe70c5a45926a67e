-------------------------------- MODULE Leak --------------------------------
(***************************************************************************)
(* What an observer of the machine may learn.  An operation is a sequence  *)
(* of stages; each stage shows the observer the instructions it executes,  *)
(* the addresses it touches and the operands of its divisions.  Secrets    *)
(* are seeds, coins, messages, secret vectors, rejection values and        *)
(* whether a ciphertext is accepted.                                       *)
(*                                                                         *)
(* Model (MInit/MNext): two runs of an operation side by side, same public *)
(* data, any secrets; what the stages show depends only on the public data *)
(* (MInv), because every choice that depends on a secret is made by        *)
(* masking.  Stages listed in Broken show their secret instead: with a     *)
(* non-empty Broken TLC exhibits the two runs that tell them apart.        *)
(*                                                                         *)
(* Generation (GInit/GNext): all experiments, that is, which secret parts  *)
(* of an operation differ from the base run, and how.                      *)
(*                                                                         *)
(* Init/Next accepts recorded runs of the real program: what was observed  *)
(* is a function of the public projection of the arguments.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Broken, Vals
VARIABLES l, memo, st
vars == <<l, memo, st>>
----------------------------------------------------------------------------
\* stages with the public data and the secrets they work on
Prog(op) == CASE op = "keypair_derand" -> <<<<"expand", {}, {"d"}>>, <<"matrix", {"rho"}, {}>>, <<"noise", {}, {"sigma"}>>, <<"arith", {}, {"s"}>>,
                                            <<"pack", {}, {"s"}>>, <<"hashpk", {}, {}>>, <<"copyz", {}, {"z"}>>>>
              [] op = "enc_derand" -> <<<<"hashpk", {}, {}>>, <<"derive", {}, {"m"}>>, <<"matrix", {"rho"}, {}>>, <<"noise", {}, {"coin"}>>, <<"frommsg", {}, {"m"}>>,
                                        <<"arith", {}, {"coin"}>>, <<"compress", {}, {"m"}>>>>
              [] op = "dec" -> <<<<"unpack", {}, {"s"}>>, <<"arith", {}, {"s"}>>, <<"tomsg", {}, {"s"}>>, <<"derive", {}, {"s"}>>, <<"matrix", {"rho"}, {}>>,
                                 <<"noise", {}, {"s"}>>, <<"compress", {}, {"s"}>>, <<"compare", {}, {"acc"}>>, <<"reject", {}, {"z"}>>, <<"select", {}, {"acc"}>>>>
Ops == {"keypair_derand", "enc_derand", "dec"}
Secrets == {"d", "sigma", "s", "z", "m", "coin", "acc"}
Show(stage, env) == <<stage[1], [p \in stage[2] |-> env[p]], IF stage[1] \in Broken THEN [x \in stage[3] |-> env[x]] ELSE << >>>>
MInit == \E op \in Ops, rho \in Vals :
           LET used == UNION {Prog(op)[i][3] : i \in DOMAIN Prog(op)}
               envs == {[x \in Secrets \cup {"rho"} |-> IF x = "rho" THEN rho ELSE IF x \in used THEN f[x] ELSE 0] : f \in [used -> Vals]} IN
           \E a \in envs, b \in envs : st = [op |-> op, i |-> 0, a |-> a, b |-> b, oa |-> << >>, ob |-> << >>] /\ l = 0 /\ memo = {}
MNext == /\ st.i < Len(Prog(st.op))
         /\ st' = [st EXCEPT !.i = @ + 1, !.oa = Append(@, Show(Prog(st.op)[st.i + 1], st.a)), !.ob = Append(@, Show(Prog(st.op)[st.i + 1], st.b))]
         /\ UNCHANGED <<l, memo>>
MInv == st.oa = st.ob
----------------------------------------------------------------------------
\* ways in which a secret differs from the base run's: not at all, anything, all zero, all ones, one bit
Ways == {"same", "other", "zero", "ones", "bit"}
Parts(op) == CASE op = "keypair_derand" -> <<"d", "z">> [] op = "enc_derand" -> <<"m">> [] op = "dec" -> <<"s", "z">>
GInit == \E op \in Ops : \E f \in [1..Len(Parts(op)) -> Ways], ct \in {"honest", "altered", "any"} :
           /\ (op # "dec" => ct = "honest") /\ st = [op |-> op, ways |-> f, ct |-> ct] /\ l = 0 /\ memo = {}
GNext == l = 0 /\ PrintT("@B " \o ToJson(st)) /\ l' = 1 /\ UNCHANGED <<memo, st>>
----------------------------------------------------------------------------
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1 /\ memo = << >> /\ st = {}
\* arguments and results arrive as numbers standing for byte strings; e.prog: which build of the program ran
Public(e) == CASE e.op \in {"keypair_derand", "keypair"} -> <<e.prog, e.op, e.a.rho>>
               [] e.op \in {"enc_derand", "enc"}         -> <<e.prog, e.op, e.a.pk>>
               [] e.op = "dec"                           -> <<e.prog, e.op, e.a.pk, e.a.ct>>
Ok(e) == /\ e.st = 0
         \* the experiment was what it claims: a key that belongs to the ciphertext accepts, any other rejects
         /\ (e.op = "dec" => ((e.ss = e.kss) <=> e.acc))
         /\ \E p \in {Public(e)} : IF p \in DOMAIN memo THEN memo[p] = e.seen /\ UNCHANGED memo
                                   ELSE memo' = (p :> e.seen) @@ memo
Next == l <= Len(Trace) /\ Ok(Trace[l]) /\ l' = l + 1 /\ UNCHANGED st
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
