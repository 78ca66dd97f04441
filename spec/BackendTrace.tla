---------------------------- MODULE BackendTrace ----------------------------
(***************************************************************************)
(* The same scenario, executed using different backends (AVX2, AVX-512 and   *)
(* scalar), is the same step of Convert: the same decision, the same samples *)
(* (up to rounding), the same memory otherwise.                              *)
(***************************************************************************)
EXTENDS Convert, ColorCheck
vars == <<views, smem, dmem, result, l>>

E == Trace[l]
Near(a, b) == a - b <= 1 /\ b - a <= 1

(* Where intermediate results are far out of range, they (and what is lost by *)
(* cancellation) depend on the precision of the arithmetic: values which      *)
(* differ have to be correct, if the color equations define one               *)
BothCorrect(s, sci, d, dci, a, b, c, i) ==
    c <= 3 /\
    LET cx == (i - 1) % CompW(d.f, c, d.w)  cy == (i - 1) \div CompW(d.f, c, d.w)
        cov == Covered(d.f, c, cx, cy)
        ps == TLCEval([j \in 1..Len(cov) |-> Pixel(s.f, sci, d.f, dci, CodesAt(s, a.sv, cov[j][1], cov[j][2]))])
    IN  IF \E j \in 1..Len(cov) : ps[j] = Wild THEN a.dv[c][i] <= Fmt[d.f].max /\ b.dv[c][i] <= Fmt[d.f].max
        ELSE LET o == Out(d.f, dci, c, Mean([j \in 1..Len(cov) |-> ps[j][c]])) IN
             Rounds(o, a.dv[c][i], Fmt[d.f].max) /\ Rounds(o, b.dv[c][i], Fmt[d.f].max)

Same(a, b) ==
    LET s == ViewOf(a.src)  d == ViewOf(a.dst)  sci == a.src.ci  dci == a.dst.ci IN
    /\ Chk("not the same scenario", a.src = b.src /\ a.dst = b.dst /\ a.sv = b.sv /\ a.bd = b.bd)
    /\ Chk("panic", ~IsPanic(a.res) /\ ~IsPanic(b.res))
    /\ Chk("source was modified", a.srcdiff = -1 /\ b.srcdiff = -1)
    /\ IF IsOk(a.res)
       THEN /\ Chk("decision", IsOk(b.res) /\ ~MustFail(s, sci, d, dci))
            /\ Chk("memory outside of the image was modified", ConfinedTo(d, a.bd, a.ad) /\ ConfinedTo(d, b.bd, b.ad))
            /\ Chk("a backend changed samples of the same color",
                   s.f = d.f /\ SameColor(sci, dci) => a.dv = a.sv /\ b.dv = b.sv)
            /\ \A c \in 1..Fmt[d.f].nc : \A i \in 1..Len(a.dv[c]) :
                  IF Near(a.dv[c][i], b.dv[c][i]) \/ BothCorrect(s, sci, d, dci, a, b, c, i) THEN TRUE
                  ELSE PrintT(<<"component", c, "sample", i, a.dv[c][i], b.dv[c][i]>>) /\ Chk("backends differ", FALSE)
       ELSE /\ Chk("decision", ~IsOk(b.res))
            /\ Chk("untruthful error", MayFailWith(s, sci, d, dci, a.res) /\ MayFailWith(s, sci, d, dci, b.res))
            /\ Chk("failed, but modified the destination", a.ad = a.bd /\ b.ad = b.bd)

EvEverywhere ==
    /\ E.op = "everywhere"
    /\ \A i \in 2..Len(E.runs) : Holds(Same(E.runs[1], E.runs[i]))
    /\ Advance(l + 1) /\ UNCHANGED <<views, smem, dmem, result>>

Init == l = 1 /\ views = NoViews /\ smem = <<>> /\ dmem = <<>> /\ result = ""
Next == l <= N /\ NoCrash /\ EvEverywhere
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
