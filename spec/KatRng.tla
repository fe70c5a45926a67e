------------------------------- MODULE KatRng -------------------------------
(***************************************************************************)
(* The known-answer generator's randomness as a system: one CTR_DRBG that  *)
(* can be re-initialised at any time and two seed expanders used in any    *)
(* interleaving with it.                                                   *)
(*                                                                         *)
(* The DRBG is modelled with a small counter (Base^Digits values) whose    *)
(* digits carry as an implementation does it, next to the number it must   *)
(* stand for; the expander with its 16-byte buffer, next to the position   *)
(* in one stream it must deliver.  Complete behaviours go to the harness.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Base, Digits, Bufs, Budgets, MaxOps, MaxKinds, Printing, GenLens

VARIABLES v, num, x, hist, fin
vars == <<v, num, x, hist, fin>>
Modulus == Base ^ Digits
Value(d) == LET RECURSIVE W(_) W(i) == IF i = 0 THEN 0 ELSE W(i-1) * Base + d[i] IN W(Digits)
\* increment with carry from the last digit
Inc(d) == LET RECURSIVE C(_, _) C(i, e) == IF i = 0 THEN e ELSE IF e[i] = Base - 1 THEN C(i-1, [e EXCEPT ![i] = 0]) ELSE [e EXCEPT ![i] = @ + 1] IN C(Digits, d)
IncN(d, n) == LET RECURSIVE C(_, _) C(k, e) == IF k = 0 THEN e ELSE C(k-1, Inc(e)) IN C(n, d)
NoX == [max |-> 0, rem |-> 0, bp |-> 16, blk |-> 0, pos |-> 0, in |-> FALSE]
Init == /\ v = [i \in 1..Digits |-> 0] /\ num = 0 /\ x = [j \in 1..2 |-> NoX] /\ hist = << >> /\ fin = FALSE
Log(e) == hist' = Append(hist, e)
\* initialisation leaves the counter at a value the entropy input chooses (t: how close to overflow, at which byte)
DoInit == \E t \in 0..MaxKinds, p \in 0..1 : \E d \in {IncN([i \in 1..Digits |-> 0], Modulus - 1 - (t % Modulus))} :
            /\ v' = d /\ num' = (Modulus - 1 - (t % Modulus)) /\ UNCHANGED <<x, fin>> /\ Log([op |-> "init", t |-> t, p |-> p])
\* a request of n bytes uses ceil(n/16) counter values, the update three more
DoGen == \E n \in GenLens : LET b == (n + 15) \div 16 + 3 IN
            /\ v' = IncN(v, b) /\ num' = (num + b) % Modulus /\ UNCHANGED <<x, fin>> /\ Log([op |-> "gen", n |-> n])
DoXInit == \E j \in 1..2, m \in Budgets : /\ x' = [x EXCEPT ![j] = [NoX EXCEPT !.max = m, !.rem = m, !.in = TRUE]]
                                          /\ UNCHANGED <<v, num, fin>> /\ Log([op |-> "xinit", x |-> j, max |-> m])
DoXBad == \E j \in 1..2, k \in 0..3 : x[j].in /\ UNCHANGED <<v, num, x, fin>> /\ Log([op |-> "xover", x |-> j, k |-> k])
\* copying n bytes: what the buffer has, then whole blocks
Take(s, n) == IF n <= 16 - s.bp THEN [s EXCEPT !.bp = @ + n, !.pos = @ + n, !.rem = @ - n]
              ELSE LET m == n - (16 - s.bp)  b == (m + 15) \div 16 IN
                   [s EXCEPT !.blk = @ + b, !.bp = m - 16 * (b - 1), !.pos = @ + n, !.rem = @ - n]
Sizes(s) == {0, 1, 15, 16, 17, 32, 33, 16 - s.bp, 17 - s.bp, 32 - s.bp, s.rem - 1, s.rem - 2, 100} \cap Nat
DoXGet == \E j \in 1..2 : x[j].in /\ \E n \in Sizes(x[j]) :
            /\ n < x[j].rem /\ n <= 4000
            /\ x' = [x EXCEPT ![j] = Take(@, n)] /\ UNCHANGED <<v, num, fin>> /\ Log([op |-> "xget", x |-> j, n |-> n])
\* refused: as much as the budget or more; no output buffer
DoXRefuse == \E j \in 1..2 : x[j].in /\ \E k \in {0, 1, 2, 16, 77} :
            UNCHANGED <<v, num, x, fin>> /\ Log([op |-> "xref", x |-> j, k |-> k])
DoXNull == \E j \in 1..2, n \in {0, 5, 40} : x[j].in /\ UNCHANGED <<v, num, x, fin>> /\ Log([op |-> "xnull", x |-> j, n |-> n])
Finish == ~fin /\ Len(hist) = MaxOps /\ Printing /\ PrintT("@B " \o ToJson(hist)) /\ fin' = TRUE /\ UNCHANGED <<v, num, x, hist>>
More == Len(hist) < MaxOps
Next == \/ (More /\ DoInit) \/ (More /\ DoGen) \/ (More /\ DoXInit) \/ (More /\ DoXBad) \/ (More /\ DoXGet)
        \/ (More /\ DoXRefuse) \/ (More /\ DoXNull) \/ Finish
NextDrbg == (More /\ DoInit) \/ (More /\ DoGen) \/ Finish
NextExp == (More /\ DoGen) \/ (More /\ DoXInit) \/ (More /\ DoXBad) \/ (More /\ DoXGet) \/ (More /\ DoXRefuse) \/ (More /\ DoXNull) \/ Finish
View == <<v, num, x, Len(hist)>>
Inv == /\ Value(v) = num
       /\ \A j \in 1..2 : LET s == x[j] IN
            /\ s.rem + s.pos = s.max /\ (s.pos > 0 => s.rem > 0)
            /\ s.pos = 16 * s.blk - (16 - s.bp) /\ s.bp \in 0..16
=============================================================================
