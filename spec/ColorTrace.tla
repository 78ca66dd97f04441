----------------------------- MODULE ColorTrace -----------------------------
(* Checks the values written by recorded conversions against Color *)
EXTENDS ColorCheck

vars == <<views, l>>
E == Trace[l]

EvColor ==
    /\ E.op = "multi"
    /\ \A i \in 1..Len(E.runs) : Holds(RunCorrect(E.runs[i]))
    /\ Advance(l + 1) /\ UNCHANGED views

Init == l = 1 /\ views = NoViews
Next == l <= N /\ NoCrash /\ EvColor
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
