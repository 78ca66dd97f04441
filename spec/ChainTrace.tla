----------------------------- MODULE ChainTrace -----------------------------
(***************************************************************************)
(* Chains of conversions which end in the format and color they began with.  *)
(*                                                                         *)
(* The exact conversions are inverses of each other, so the picture at the   *)
(* end differs from the one at the start only by the rounding of the images  *)
(* inbetween: sum over these of (at most half a code, in each component) as  *)
(* seen by the conversion from this image to the last one.                   *)
(***************************************************************************)
EXTENDS ColorCheck

vars == <<views, l>>
E == Trace[l]
K == Len(E.imgs)
V(j) == ViewOf(E.imgs[j])
CI_(j) == E.imgs[j].ci

Mid(a) == (a[1] + a[2]) \div 2

(* Components of the last image, in 1/65536 of a code, given the normalized  *)
(* codes of a pixel of image j                                               *)
Last(j, n) ==
    LET d == V(K)  p == PixelOf(V(j).f, CI_(j), d.f, CI_(K), n) IN
    IF p = Wild THEN Wild ELSE [c \in 1..3 |-> ToCode(Mid(Out(d.f, CI_(K), c, p[c])), Fmt[d.f].max)]

(* Half a code and what floating point arithmetic may add, in 1/16 codes *)
HalfCode == 9

(* Effect of rounding a pixel of image j: what was rounded is in a box around *)
(* its codes. (The effect of one component alone isn't enough: where one of   *)
(* R, G, B is close to zero, it's far from being linear.)                     *)
Corners == {<<a, b, c>> : a, b, c \in {-1, 1}}
Effect(j, n) ==
    LET p == Last(j, n)
        e == (HalfCode * (One \div Fmt[V(j).f].max)) \div 16 + 1
        r == [k \in Corners |-> Last(j, [i \in 1..3 |-> IAdd(n[i], I(k[i] * e))])]
    IN  IF p = Wild \/ \E k \in Corners : r[k] = Wild THEN Wild
        ELSE [c \in 1..3 |-> LET ds == {FAbs(r[k][c] - p[c]) : k \in Corners}
                             IN  ((CHOOSE x \in ds : \A y \in ds : x >= y) * 17) \div 16 + 512]

RECURSIVE Budget(_, _, _)
Budget(j, x, y) ==
    IF j = K THEN [c \in 1..3 |-> 32768 + 2048]
    ELSE LET a == Budget(j + 1, x, y)
             b == IF a = Wild THEN Wild ELSE Effect(j, NormCodes(V(j).f, CodesAt(V(j), E.vals[j], x, y)))
         IN  IF b = Wild THEN Wild ELSE [c \in 1..3 |-> a[c] + b[c]]

PixelKept(x, y) ==
    LET a == CodesAt(V(1), E.vals[1], x, y)  b == CodesAt(V(K), E.vals[K], x, y)
        t == Budget(2, x, y)
    IN  IF t = Wild THEN TRUE
        ELSE \A c \in 1..3 :
                IF FAbs(a[c] - b[c]) * 65536 <= t[c] THEN TRUE
                ELSE PrintT(<<"pixel", x, y, "component", c, "was", a[c], "is", b[c], "allowed", t[c], "/ 65536">>) /\ FALSE

AlphaKept ==
    (\A j \in 1..K : Fmt[V(j).f].nc = 4) => E.vals[K][4] = E.vals[1][4]

EvChain ==
    /\ E.op = "chain"
    /\ Chk("failed", \A j \in 1..Len(E.res) : IsOk(E.res[j]))
    /\ Chk("not a chain", Len(E.vals) = K /\ V(1).f = V(K).f /\ CI_(1) = CI_(K))
    /\ Chk("a sample exceeds the bit depth", \A j \in 1..K : ValidCodes(V(j), E.vals[j]))
    /\ Chk("alpha", AlphaKept)
    /\ Chk("the picture is not preserved",
           \A x \in 0..(V(1).w - 1), y \in 0..(V(1).h - 1) : (x + 3 * y + E.pick) % E.every # 0 \/ PixelKept(x, y))
    /\ Advance(l + 1) /\ UNCHANGED views

Init == l = 1 /\ views = NoViews
Next == l <= N /\ NoCrash /\ EvChain
Spec == Init /\ [][Next]_vars
TraceAccepted == AllExplained
=============================================================================
