---------------------------- MODULE RandomBytes -----------------------------
(***************************************************************************)
(* A request for randomness as a protocol with the operating system.       *)
(* The system answers a request for n bytes with fewer bytes, with an      *)
(* interruption, or with a permanent error.  The process must end up with  *)
(* the whole buffer filled with what the source delivered, in order, or    *)
(* stop on a permanent error; it may ask in pieces of any size.            *)
(* Branch: "getrandom" needs no descriptor; "device" reads a descriptor    *)
(* it keeps open; "context" acquires and releases one per request.         *)
(*                                                                         *)
(* Numbers in traces are <<h, l>> = h * 2^24 + l (requests beyond 2^32).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Branch, Lens, MaxFaults, MaxReqs, MaxHist, Printing

VARIABLES l, mode, need, filled, data, fds, faults, reqs, hist
vars == <<l, mode, need, filled, data, fds, faults, reqs, hist>>
----------------------------------------------------------------------------
\* the process and the system, small numbers
Idle == mode = "idle"
MInit == l = 0 /\ mode = "idle" /\ need = 0 /\ filled = 0 /\ data = << >> /\ fds = {} /\ faults = 0 /\ reqs = << >> /\ hist = << >>
Request == /\ Idle /\ Len(reqs) < MaxReqs
           /\ \E n \in Lens : reqs' = Append(reqs, n) /\ need' = n
           /\ mode' = "run" /\ filled' = 0 /\ data' = << >> /\ UNCHANGED <<l, fds, faults, hist>>
Log(c) == Len(hist) < MaxHist /\ hist' = Append(hist, c)
NeedsFd == Branch # "getrandom" /\ fds = {}
Fault(c) == faults < MaxFaults /\ faults' = faults + 1 /\ Log(c)
Open == /\ mode = "run" /\ NeedsFd
        /\ \/ fds' = {1} /\ mode' = "run" /\ Log("F") /\ UNCHANGED faults
           \/ Branch # "context" /\ Fault("I") /\ UNCHANGED <<mode, fds>>
           \/ Fault("E") /\ mode' = "fail" /\ UNCHANGED fds
        /\ UNCHANGED <<l, need, filled, data, reqs>>
\* how much of n the system delivers
Deliver(c, n) == CASE c = "F" -> n [] c = "1" -> 1 [] c = "H" -> (n + 1) \div 2 [] c = "M" -> IF n > 1 THEN n - 1 ELSE n
Get == /\ mode = "run" /\ ~NeedsFd /\ filled < need
       /\ \/ \E c \in (IF Branch = "context" THEN {"F"} ELSE {"F", "1", "H", "M"}) :
               LET r == Deliver(c, need - filled) IN
               /\ Log(c) /\ filled' = filled + r
               /\ data' = data \o [i \in 1..r |-> filled + i] /\ UNCHANGED <<mode, faults>>
          \/ Branch # "context" /\ Fault("I") /\ UNCHANGED <<mode, filled, data>>
          \/ Fault("E") /\ mode' = "fail" /\ UNCHANGED <<filled, data>>
       /\ UNCHANGED <<l, need, fds, reqs>>
Release == /\ mode = "run" /\ Branch = "context" /\ fds # {} /\ filled = need
           /\ \/ fds' = {} /\ mode' = "idle" /\ Log("F") /\ UNCHANGED faults
              \/ Fault("E") /\ mode' = "fail" /\ UNCHANGED fds
           /\ UNCHANGED <<l, need, filled, data, reqs>>
Return == /\ mode = "run" /\ Branch # "context" /\ ~NeedsFd /\ filled = need /\ mode' = "idle"
          /\ UNCHANGED <<l, need, filled, data, fds, faults, reqs, hist>>
Stop == mode = "fail" /\ mode' = "stopped" /\ UNCHANGED <<l, need, filled, data, fds, faults, reqs, hist>>
Ended == mode = "stopped" \/ (Idle /\ Len(reqs) = MaxReqs)
Finish == Ended /\ l = 0 /\ Printing /\ PrintT("@B " \o ToJson([reqs |-> reqs, outs |-> hist])) /\ l' = 1
          /\ UNCHANGED <<mode, need, filled, data, fds, faults, reqs, hist>>
MNext == Request \/ Open \/ Get \/ Release \/ Return \/ Stop \/ Finish
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(Request \/ Open \/ Get \/ Release \/ Return \/ Stop)
Whole == (Idle /\ reqs # << >>) => filled = need /\ data = [i \in 1..need |-> i]
NoLeak == Cardinality(fds) <= 1 /\ (Branch = "context" /\ Idle => fds = {})
NoOverrun == filled <= need
StopsOnError == mode = "stopped" => "E" \in {hist[i] : i \in DOMAIN hist}
MInv == Whole /\ NoLeak /\ NoOverrun /\ StopsOnError
Terminates == <>(mode = "stopped" \/ (Idle /\ Len(reqs) = MaxReqs))
----------------------------------------------------------------------------
\* recorded runs (own: the system writes into the caller's buffer; memory of the callee's own is copied
\* from later, so there only what arrives in the buffer counts)
Trace == ndJsonDeserialize(IOEnv.TRACE)
B == 16777216
Zero == <<0, 0>>
Norm(h, lo) == <<h + lo \div B, lo % B>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Init == l = 1 /\ mode = "new" /\ need = Zero /\ filled = Zero /\ data = << >> /\ fds = {} /\ faults = 0 /\ reqs = << >> /\ hist = << >>
\* mode fail: a permanent error was reported; failsrc: by the descriptor-less source, for which another source may stand in
Step(e) ==
  CASE e.op = "new" -> mode' = "idle" /\ fds' = {} /\ UNCHANGED <<need, filled, data>>
    [] e.op = "req" -> mode = "idle" /\ mode' = "run" /\ need' = e.n /\ filled' = Zero /\ data' = << >> /\ UNCHANGED fds
    [] e.op = "open" -> /\ mode \in {"run", "nosrc"}
                        /\ IF e.neg = 0 THEN fds' = fds \cup {e.fd} /\ mode' = "run"
                           ELSE fds' = fds /\ mode' = (IF e.err = "EINTR" THEN mode ELSE "fail")
                        /\ UNCHANGED <<need, filled, data>>
    [] e.op = "get" -> /\ mode = "run" /\ (e.fd = -1 \/ e.fd \in fds)
                       /\ (e.own = 1 => e.off = filled /\ Le(Add(filled, e.n), need))
                       /\ IF e.neg = 0
                          THEN /\ filled' = Add(filled, e.res) /\ mode' = mode
                               /\ data' = IF e.nd >= 0 /\ Len(data) < 48 THEN data \o e.data ELSE data
                          ELSE /\ UNCHANGED <<filled, data>>
                               /\ mode' = IF e.err = "EINTR" THEN mode ELSE IF e.fd = -1 THEN "nosrc" ELSE "fail"
                       /\ UNCHANGED <<need, fds>>
    [] e.op = "close" -> /\ e.fd \in fds /\ fds' = fds \ {e.fd}
                         /\ mode' = (IF e.neg = 1 THEN "fail" ELSE mode) /\ UNCHANGED <<need, filled, data>>
    [] e.op = "ret" -> /\ mode = "run" /\ Le(need, filled) /\ e.eq = 1 /\ e.clean = 1
                       /\ Cardinality(fds) <= 1 /\ (e.nd >= 0 => Len(data) >= e.nd /\ e.data = SubSeq(data, 1, e.nd))
                       /\ mode' = "idle" /\ UNCHANGED <<need, filled, data, fds>>
    [] e.op = "stop" -> mode \in {"fail", "nosrc"} /\ mode' = "over" /\ UNCHANGED <<need, filled, data, fds>>
    [] OTHER -> FALSE
Next == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ UNCHANGED <<faults, reqs, hist>>
Done == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
