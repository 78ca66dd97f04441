----------------------------- MODULE CurveTrace -----------------------------
(* Checks recorded evaluations of the transfer functions, and the public      *)
(* matrices of the primaries, against Color                                  *)
EXTENDS Color, TraceLib

VARIABLE x  \* nothing, TLC wants a second variable of the module
vars == <<x, l>>
E == Trace[l]

(* encoded values have 24, linear light 27 fractional bits *)
InDomain(a) == IF E.dir = "fwd" THEN EncDefined(E.t, E.u, I(a)) ELSE DecDefined(E.t, E.u, I(a))
Expected(a) == IF E.dir = "fwd" THEN Enc(E.t, E.u, I(a)) ELSE Dec(E.t, E.u, I(a))

PointCorrect(k) ==
    IF ~InDomain(E.x[k]) THEN TRUE
    ELSE LET e == Expected(E.x[k]) IN
         (* x itself is rounded to 24 bits *)
         IF e[1] - 16 <= E.y[k] /\ E.y[k] <= e[2] + 16 THEN TRUE
         ELSE PrintT(<<"point", E.x[k], "is", E.y[k], "expected", e>>) /\ FALSE

(* f32 evaluation may be off by one unit in the last place *)
Slack(y) == FAbs(y) \div 4194304 + 2
CurveCorrect ==
    /\ Chk("panic", IsOk(E.res))
    /\ Chk("not a number", E.nan = <<>>)
    /\ Chk("number of results", Len(E.y) = Len(E.x))
    /\ Chk("not monotonic", \A k \in 2..Len(E.x) : E.x[k - 1] <= E.x[k] => E.y[k - 1] <= E.y[k] + Slack(E.y[k]))
    /\ IF E.class = "far"
       (* whole numbers, results in thousandths *)
       THEN /\ Chk("beyond the domain", \A k \in 1..Len(E.x) :
                    IF E.x[k] >= 1 THEN E.y[k] >= (IF E.t = "PQ" /\ E.dir = "fwd" THEN 0 ELSE 990) ELSE E.x[k] < 0 => E.y[k] <= 1)
       ELSE Chk("wrong value", \A k \in 1..Len(E.x) : PointCorrect(k))

(* The code stores matrices by column. 1/2^24 *)
MatCorrect(m, spec) == \A r, c \in 1..3 :
    IF FAbs(m[c][r] - spec[r][c]) <= 48 THEN TRUE ELSE PrintT(<<"matrix", r, c, m[c][r], spec[r][c]>>) /\ FALSE
MatsCorrect ==
    /\ Chk("to XYZ", MatCorrect(E.fw, RgbToXyz[E.p]))
    /\ Chk("from XYZ", MatCorrect(E.bw, XyzToRgb[E.p]))

EvCurve == E.op = "transfer" /\ Holds(CurveCorrect) /\ Advance(l + 1) /\ UNCHANGED x
EvMats == E.op = "primaries" /\ Holds(MatsCorrect) /\ Advance(l + 1) /\ UNCHANGED x

Init == l = 1 /\ x = 0
Next == l <= N /\ NoCrash /\ (EvCurve \/ EvMats)
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
