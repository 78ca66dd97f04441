-------------------------- MODULE ConcurrentTrace --------------------------
(***************************************************************************)
(* Checks recorded executions of several callers, see Concurrent. Every      *)
(* caller ran its operations alone first, then all of them ran at the same    *)
(* time, repeatedly. Recorded of these are the results and whether the memory *)
(* is the one it left when it was alone.                                      *)
(***************************************************************************)
EXTENDS ColorCheck, ConvertRules, ResizeCheck

vars == <<views, l>>
E == Trace[l]

(* The images of a caller, the first one is shared *)
Desc(c, j) == IF j = 1 THEN E.src ELSE E.callers[c].imgs[j - 1]
Vals(c, j) == IF j = 1 THEN E.sv ELSE E.callers[c].vals[j - 1]

(* The operation number j of a caller, when it was alone *)
AloneOk(c, j) ==
    LET a == Desc(c, j)  b == Desc(c, j + 1)  s == ViewOf(a)  d == ViewOf(b)
        api == E.callers[c].apis[j]  r == E.callers[c].res[j]
        sv == Vals(c, j)  dv == Vals(c, j + 1)
    IN  IF api = "resize"
        THEN /\ Chk("resize failed", IsOk(r))
             /\ Holds(ValuesOk(E.callers[c].alg, s, d, sv, dv))
        ELSE /\ Chk("panic", ~IsPanic(r))
             /\ IF ~IsOk(r) THEN Chk("untruthful error", MayFailWith(s, a.ci, d, b.ci, r))
                ELSE /\ Chk("succeeded although it isn't possible", ~MustFail(s, a.ci, d, b.ci))
                     /\ IF s.f = d.f /\ SameColor(a.ci, b.ci) THEN Chk("a sample changed its value", sv = dv)
                        ELSE /\ Chk("a sample exceeds the bit depth", ValidCodes(d, dv))
                             /\ Chk("alpha", Fmt[d.f].nc = 4 => IF Fmt[s.f].nc = 4 THEN dv[4] = sv[4] ELSE \A i \in 1..Len(dv[4]) : dv[4][i] = 255)
                             /\ Chk("wrong value", SampledCorrect(s, a.ci, d, b.ci, sv, dv, E.every, c))

(* All together *)
TogetherOk(c) ==
    \A i \in 1..Len(E.callers[c].runs) :
        LET r == E.callers[c].runs[i] IN
        /\ Chk("panic", \A j \in 1..Len(r.res) : ~IsPanic(r.res[j]))
        /\ Chk("decision depends on other callers", r.res = E.callers[c].res)
        /\ Chk("result depends on other callers", r.diff = -1)

(* Equal consecutive runs are recorded once *)
RECURSIVE Times(_, _)
Times(rs, n) == IF n = 0 THEN 0 ELSE rs[n].times + Times(rs, n - 1)

EvConcurrent ==
    /\ E.op = "concurrent"
    /\ Chk("source was modified", E.srcdiff = -1)
    /\ Chk("number of runs", \A c \in 1..Len(E.callers) : Times(E.callers[c].runs, Len(E.callers[c].runs)) = E.reps)
    /\ \A c \in 1..Len(E.callers) : \A j \in 1..Len(E.callers[c].apis) : AloneOk(c, j)
    /\ \A c \in 1..Len(E.callers) : TogetherOk(c)
    /\ Advance(l + 1) /\ UNCHANGED views

Init == l = 1 /\ views = NoViews
Next == l <= N /\ NoCrash /\ EvConcurrent
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
