----------------------------- MODULE ColorCheck -----------------------------
(* Are recorded samples those Color gives? r: record with the images src, dst *)
(* and the values sv, dv of their samples                                    *)
EXTENDS Color, ImageDesc, TraceLib

SameColorAs(a, b) ==
    /\ a.k = b.k /\ a.t = b.t /\ a.p = b.p
    /\ a.k = "YUV" => a.s = b.s /\ a.full = b.full

(* Codes of the color components of the pixel (x, y) of a view *)
CodesAt(v, vals, x, y) ==
    [c \in 1..3 |-> At(v, vals, c, x \div Fmt[v.f].comps[c].ssx, y \div Fmt[v.f].comps[c].ssy)]

ValidCodes(v, vals) == \A c \in 1..Fmt[v.f].nc : \A i \in 1..Len(vals[c]) : vals[c][i] <= Fmt[v.f].max

(* The pixels covered by a sample *)
Covered(f, c, cx, cy) ==
    LET a == Fmt[f].comps[c] IN
    [i \in 1..(a.ssx * a.ssy) |-> <<cx * a.ssx + ((i - 1) % a.ssx), cy * a.ssy + ((i - 1) \div a.ssx)>>]

Mean(s) ==
    CASE Len(s) = 1 -> s[1]
      [] Len(s) = 2 -> IDiv(IAdd(s[1], s[2]), 2)
      [] Len(s) = 4 -> IDiv(IAdd(IAdd(s[1], s[2]), IAdd(s[3], s[4])), 4)

Out(f, ci, c, a) ==
    IF ~Fmt[f].yuv THEN a ELSE IF c = 1 THEN LumaOut(ci.full, a) ELSE ChromaOut(ci.full, a)

(* px[x][y]: the color of a pixel in the destination *)
SampleCorrect(d, dci, px, c, cx, cy, v) ==
    LET cov == Covered(d.f, c, cx, cy)
        wild == \E i \in 1..Len(cov) : px[cov[i][1]][cov[i][2]] = Wild
        a == Out(d.f, dci, c, Mean([i \in 1..Len(cov) |-> px[cov[i][1]][cov[i][2]][c]]))
    IN  IF wild THEN v >= 0 /\ v <= Fmt[d.f].max
        ELSE IF Rounds(a, v, Fmt[d.f].max) THEN TRUE
        ELSE PrintT(<<"sample", c, cx, cy, "value", v, "expected", ToCode(a[1], Fmt[d.f].max), ToCode(a[2], Fmt[d.f].max), "/ 65536">>) /\ FALSE

ColorsCorrect(r) ==
    LET s == ViewOf(r.src)  d == ViewOf(r.dst)
        px == TLCEval([x \in 0..(d.w - 1) |-> TLCEval([y \in 0..(d.h - 1) |->
                 Pixel(s.f, r.src.ci, d.f, r.dst.ci, CodesAt(s, r.sv, x, y))])])
    IN  /\ \A c \in 1..3 : \A cx \in 0..(CompW(d.f, c, d.w) - 1), cy \in 0..(CompH(d.f, c, d.h) - 1) :
              SampleCorrect(d, r.dst.ci, px, c, cx, cy, At(d, r.dv, c, cx, cy))

(* One of `every` samples is computed by the specification *)
SampledCorrect(s, sci, d, dci, sv, dv, every, salt) ==
    LET px(p) == Pixel(s.f, sci, d.f, dci, CodesAt(s, sv, p[1], p[2])) IN
    \A c \in 1..3 : \A cx \in 0..(CompW(d.f, c, d.w) - 1), cy \in 0..(CompH(d.f, c, d.h) - 1) :
        (cx + 3 * cy + c + salt) % every # 0 \/
            LET cov == Covered(d.f, c, cx, cy)
                ps == TLCEval([i \in 1..Len(cov) |-> px(cov[i])])
                a == Out(d.f, dci, c, Mean([i \in 1..Len(cov) |-> ps[i][c]]))
                v == At(d, dv, c, cx, cy)
            IN  IF \E i \in 1..Len(cov) : ps[i] = Wild THEN v <= Fmt[d.f].max
                ELSE IF Rounds(a, v, Fmt[d.f].max) THEN TRUE
                ELSE PrintT(<<"sample", c, cx, cy, "value", v, "expected", ToCode(a[1], Fmt[d.f].max), ToCode(a[2], Fmt[d.f].max), "/ 65536">>) /\ FALSE

AlphaCorrect(r) ==
    LET s == ViewOf(r.src)  d == ViewOf(r.dst) IN
    Fmt[d.f].nc = 4 =>
        IF Fmt[s.f].nc = 4 THEN r.dv[4] = r.sv[4] ELSE \A i \in 1..Len(r.dv[4]) : r.dv[4][i] = 255

RunCorrect(r) ==
    /\ Chk("failed", IsOk(r.res))
    /\ IF r.src.fmt = r.dst.fmt /\ SameColorAs(r.src.ci, r.dst.ci)
       THEN Chk("a sample changed its value", r.dv = r.sv)
       ELSE Chk("alpha", AlphaCorrect(r)) /\ Chk("wrong value", ColorsCorrect(r))
=============================================================================
