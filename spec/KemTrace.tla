------------------------------ MODULE KemTrace ------------------------------
(***************************************************************************)
(* Trace specification of the KEM API.  A behaviour is a history of calls; *)
(* the state is the randomness stream that the environment offers (tape,   *)
(* position).  An event e carries the arguments, the status, every output  *)
(* buffer and, for runs in the oracle world, the answered Keccak queries.  *)
(* TLC accepts a trace iff each event is the step the specification allows.*)
(***************************************************************************)
EXTENDS MLKEM, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, tape, pos
vars == <<l, tape, pos>>

Init == l = 1 /\ tape = << >> /\ pos = 0

Orc(e) == IF "tbl" \in DOMAIN e THEN [real |-> FALSE, tbl |-> e.tbl] ELSE [real |-> TRUE, tbl |-> << >>]

KeyPairOK(e, coins) == /\ e.st = 0 /\ KeyPairAsked(Orc(e), e.k, coins)
                       /\ Force(LAMBDA kp : kp[1] = e.pk /\ (kp[2] \o FnH(Orc(e), kp[1])) \o SubSeq(coins, 33, 64) = e.sk
                                            /\ (Orc(e).real \/ Has(Orc(e), kp[1], 136, 6, 32)),
                                KeyPairCore(Orc(e), e.k, coins))
EncOK(e, m) == e.st = 0 /\ EncAsked(Orc(e), e.k, e.pk, m) /\ <<e.ct, e.ss>> = Encaps(Orc(e), e.k, e.pk, m)
DecOK(e) == e.st = 0 /\ DecAsked(Orc(e), e.k, e.sk, e.ct) /\ e.ss = Decaps(Orc(e), e.k, e.sk, e.ct)

Draw(n) == SubSeq(tape, pos + 1, pos + n)

Step(e) ==
  CASE e.op = "keypair_derand" -> KeyPairOK(e, e.coins) /\ UNCHANGED <<tape, pos>>
    [] e.op = "enc_derand"     -> EncOK(e, e.coins) /\ UNCHANGED <<tape, pos>>
    [] e.op = "dec"            -> DecOK(e) /\ UNCHANGED <<tape, pos>>
    [] e.op = "tape"           -> tape' = e.bytes /\ pos' = 0
    [] e.op = "keypair"        -> /\ pos + 64 <= Len(tape) /\ KeyPairOK(e, Draw(64))
                                  /\ pos' = pos + 64 /\ e.pos = pos + 64 /\ UNCHANGED tape
    [] e.op = "enc"            -> /\ pos + 32 <= Len(tape) /\ EncOK(e, Draw(32))
                                  /\ pos' = pos + 32 /\ e.pos = pos + 32 /\ UNCHANGED tape
    [] OTHER -> FALSE

Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
