------------------------------ MODULE TraceLib ------------------------------
(* Common to all trace specifications: the recorded events, one per line of *)
(* the file named by the environment variable TRACE.                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLE l   \* the next event to explain

Has(r, k) == k \in DOMAIN r
Get(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d

(* A named condition. Which one didn't hold is reported to the caller. *)
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", l, name>>) /\ FALSE

(* An action of the specification which has to be possible, `guard` is what *)
(* it depends on                                                            *)
Do(name, guard, action) == Chk(name, guard) /\ action

(* The process which executed the scenario was killed by a signal, or had   *)
(* to be since it didn't terminate                                           *)
NoCrash == Chk("the process crashed or hangs", ~Has(Trace[l], "crash"))

(* All events are explained. The position is kept in a register of the (only) *)
(* worker since some events are several steps of the specification.           *)
Advance(n) == l' = n /\ TLCSet(1, n)
AllExplained == TLCGet(1) = N + 1

IsOk(r)    == r.k = "ok"
IsErr(r)   == r.k = "err"
IsPanic(r) == r.k = "panic" \/ r.k = "signal" \/ r.k = "timeout"
=============================================================================
