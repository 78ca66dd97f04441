----------------------------- MODULE ResizeCheck -----------------------------
(* Are recorded samples those Resize gives? s, d: views, sv, dv: their values *)
EXTENDS Resize, ImageDesc, TraceLib

(* positions of a component which belong to a group *)
Xs(d, c) == 0..(GroupsW(d.f, c, d.w) * Gs(d.f, c) - 1)
Ys(d, c) == 0..(CompH(d.f, c, d.h) - 1)

SrcEmpty(s, c) == GroupsW(s.f, c, s.w) = 0 \/ CompH(s.f, c, s.h) = 0

NearestOk(sv, s, d, c, x, y, v) ==
    LET g == Gs(d.f, c)
        xs == NearestSet(x \div g, GroupsW(s.f, c, s.w), GroupsW(d.f, c, d.w))
        ys == NearestSet(y, CompH(s.f, c, s.h), CompH(d.f, c, d.h))
    IN  \E i \in xs, j \in ys : At(s, sv, c, i * g + (x % g), j) = v

(* Is the value of the filter known? The intermediate image of supersampling   *)
(* is made by the nearest neighbour if it's smaller by more than 1.2            *)
Exact(alg, sw, dw, sh, dh) ==
    LET a == AlgInfo[alg] IN
    CASE a.k = "nearest" -> FALSE
      [] a.k = "super" -> 10 * sw < 11 * a.m * dw \/ 10 * sh < 11 * a.m * dh
      [] OTHER -> TRUE

(* The values of component c, in 1/64, each twice: by either order of the passes. *)
(* Their results are integers, and weights are precise to 1/2000 of the largest   *)
FilterOk(alg, sv, s, d, c, dv) ==
    LET g == Gs(d.f, c)  max == Fmt[d.f].max
        sw == GroupsW(s.f, c, s.w)  dw == GroupsW(d.f, c, d.w)  sh == CompH(s.f, c, s.h)  dh == CompH(d.f, c, d.h)
        top == 64 * (IF max > 255 THEN 65535 ELSE 255)
        linear == alg \in Bounded
        tol == (IF linear THEN 84 ELSE 116) + (IF AlgInfo[alg].f = "bilinear" THEN 0 ELSE max \div 8)
        src == TLCEval([m \in 0..(g - 1) |-> [i \in 0..(sw - 1) |-> [j \in 0..(sh - 1) |-> At(s, sv, c, i * g + m, j) * 64]]])
        values(m, vert) == Filtered(alg, sw, dw, sh, dh, LAMBDA i, j : src[m][i][j], top, vert)
        e1 == TLCEval([m \in 0..(g - 1) |-> values(m, TRUE)])
        e2 == IF linear THEN e1 ELSE TLCEval([m \in 0..(g - 1) |-> values(m, FALSE)])
        near(v, e) == LET diff == v * 64 - Limit(e, 64 * max) IN diff <= tol /\ diff >= -tol
    IN  \A x \in 0..(dw - 1), y \in 0..(dh - 1), m \in 0..(g - 1) :
            LET v == At(d, dv, c, x * g + m, y) IN
            IF near(v, e1[m][x][y]) THEN TRUE
            ELSE IF near(v, e2[m][x][y]) THEN TRUE
            ELSE IF sw # dw /\ BoxTie(alg, x, sw, dw) THEN TRUE
            ELSE IF sh # dh /\ BoxTie(alg, y, sh, dh) THEN TRUE
            ELSE PrintT(<<"sample", c, x * g + m, y, "is", v, "expected", e1[m][x][y], e2[m][x][y], "/ 64">>) /\ FALSE

Lowest(q) == CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A j \in 1..Len(q) : q[j] >= v
Highest(q) == CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A j \in 1..Len(q) : q[j] <= v

ValuesOk(alg, s, d, sv, dv) ==
    \A c \in 1..Fmt[d.f].nc :
        IF SrcEmpty(s, c) THEN TRUE ELSE
        (* samples of odd sized images which are in no group are out of reach *)
        LET lo == Lowest(sv[c])  hi == Highest(sv[c]) IN
        /\ (IF s.w = d.w /\ s.h = d.h THEN FALSE
            ELSE Exact(alg, GroupsW(s.f, c, s.w), GroupsW(d.f, c, d.w), CompH(s.f, c, s.h), CompH(d.f, c, d.h)))
           => Chk("wrong value", FilterOk(alg, sv, s, d, c, dv))
        /\ \A x \in Xs(d, c), y \in Ys(d, c) :
            LET v == At(d, dv, c, x, y) IN
            IF s.w = d.w /\ s.h = d.h THEN Chk("not a copy", v = At(s, sv, c, x, y))
            ELSE
            /\ Chk("exceeds the bit depth", v <= Fmt[d.f].max)
            /\ lo = hi => Chk("a constant component isn't constant", v = lo)
            /\ alg \in Bounded => Chk("outside of the range of the source", v >= lo /\ v <= hi)
            /\ alg = "nearest" => Chk("not the nearest sample", NearestOk(sv, s, d, c, x, y, v))
=============================================================================
