------------------------------- MODULE Resize -------------------------------
(***************************************************************************)
(* Resizing. Every plane is a grid of groups of samples, a group consists of *)
(* the samples which belong together (of an interleaved plane all components *)
(* of a pixel, for YUYV of two pixels). Groups of the destination are made   *)
(* from groups of the source, each member of the group on its own.           *)
(***************************************************************************)
EXTENDS Formats, TLC, Json, SequencesExt


(* Number of samples of a component in a group of its plane *)
Gs(f, c) == IF f = "YUYV" /\ c = 1 THEN 2 ELSE 1
GroupsW(f, c, w) == CompW(f, c, w) \div Gs(f, c)

(* The algorithms: kind, filter, and how many times the size of the result the *)
(* intermediate image of supersampling has                                     *)
Alg(k, f, m) == [k |-> k, f |-> f, m |-> m]
AlgInfo ==
    [nearest |-> Alg("nearest", "", 0), super |-> Alg("super", "bilinear", 2)] @@
    ("conv-box" :> Alg("conv", "box", 0)) @@ ("conv-bilinear" :> Alg("conv", "bilinear", 0)) @@
    ("conv-hamming" :> Alg("conv", "hamming", 0)) @@ ("conv-catmull" :> Alg("conv", "catmull", 0)) @@
    ("conv-mitchell" :> Alg("conv", "mitchell", 0)) @@ ("conv-gaussian" :> Alg("conv", "gaussian", 0)) @@
    ("conv-lanczos" :> Alg("conv", "lanczos", 0)) @@
    ("interp-bilinear" :> Alg("interp", "bilinear", 0)) @@ ("interp-catmull" :> Alg("interp", "catmull", 0)) @@
    ("interp-mitchell" :> Alg("interp", "mitchell", 0)) @@ ("interp-gaussian" :> Alg("interp", "gaussian", 0)) @@
    ("interp-lanczos" :> Alg("interp", "lanczos", 0)) @@ ("interp-hamming" :> Alg("interp", "hamming", 0)) @@
    ("super-lanczos-1" :> Alg("super", "lanczos", 1)) @@ ("super-catmull-3" :> Alg("super", "catmull", 3)) @@
    ("super-hamming-4" :> Alg("super", "hamming", 4)) @@ ("super-bilinear-8" :> Alg("super", "bilinear", 8))

(* Algorithms which can't exceed the range of the source *)
Bounded == {a \in DOMAIN AlgInfo : AlgInfo[a].f \notin {"catmull", "mitchell", "lanczos"}}

(* The algorithm works on both axes independently. Nearest neighbour: the    *)
(* center of the destination group, scaled. It may be exactly between two    *)
(* groups of the source.                                                     *)
NearestAt(x, S, D) == ((2 * x + 1) * S) \div (2 * D)
NearestTie(x, S, D) == ((2 * x + 1) * S) % (2 * D) = 0
NearestSet(x, S, D) == {NearestAt(x, S, D)} \cup (IF NearestTie(x, S, D) THEN {NearestAt(x, S, D) - 1} \cap 0..S ELSE {})

(* Filters: weight of group j of the source. Positions are in units of        *)
(* 1 / (2 D), weights in 1/4096. Convolution widens the filter when shrinking. *)
(* Supersampling, unless the source is a lot larger, is a convolution.         *)
KernelData == TLCEval(JsonDeserialize("kernels.json"))
Offset(x, j, S, D) == (2 * j + 1) * D - (2 * x + 1) * S
Dist(x, j, S, D) == LET d == Offset(x, j, S, D) IN IF d < 0 THEN -d ELSE d
Unit(kind, S, D) == IF kind = "interp" THEN 2 * D ELSE 2 * Max2(S, D)
FilterAt(t, dist, unit) ==
    LET n == (dist * 256) \div unit  r == (dist * 256) % unit IN
    IF n + 1 >= Len(t) THEN 0 ELSE (t[n + 1] * (unit - r) + t[n + 2] * r) \div unit
Weight(alg, x, j, S, D) ==
    LET a == AlgInfo[alg]  unit == Unit(a.k, S, D)  o == Offset(x, j, S, D) IN
    CASE a.f = "box" -> (IF -unit < 2 * o /\ 2 * o <= unit THEN 1 ELSE 0)
      [] a.f = "bilinear" -> Max2(0, unit - Dist(x, j, S, D))
      [] OTHER -> FilterAt(KernelData[a.f], Dist(x, j, S, D), unit)
(* the sides of a box between two groups, it isn't defined to which it belongs *)
BoxTie(alg, x, S, D) ==
    AlgInfo[alg].f = "box" /\ \E j \in 0..(S - 1) : 2 * Dist(x, j, S, D) = Unit(AlgInfo[alg].k, S, D)
Sum(s) == FoldLeft(LAMBDA a, e : a + e, 0, s)

(* first group which contributes, all weights up to the last one, their sum *)
Kernel(alg, x, S, D) ==
    LET js == TLCEval({j \in 0..(S - 1) : Weight(alg, x, j, S, D) # 0})
        lo == CHOOSE j \in js : \A i \in js : j <= i
        hi == CHOOSE j \in js : \A i \in js : j >= i
        w == TLCEval([k \in 1..(hi - lo + 1) |-> Weight(alg, x, lo + k - 1, S, D)])
    IN  [lo |-> lo, w |-> w, t |-> Sum(w)]

(* Weighted mean of the samples val(0..), in their unit. Every product is     *)
(* divided on its own, the sum of all could exceed TLC's integers.           *)
Mean(k, val(_)) ==
    LET t == k.t
        p == TLCEval([i \in 1..Len(k.w) |-> val(k.lo + i - 1) * k.w[i]])
        whole(a, e) == a + (e \div t)
        rest(a, e) == a + (e % t)
    IN  FoldLeft(whole, 0, p) + ((FoldLeft(rest, 0, p) + (t \div 2)) \div t)

(* All kernels of an axis; axes of the same size are not filtered *)
Kernels(alg, S, D) ==
    TLCEval([x \in 0..(D - 1) |-> IF S = D THEN [lo |-> x, w |-> <<1>>, t |-> 1] ELSE Kernel(alg, x, S, D)])

(* Intermediate results may be limited *)
Limit(v, top) == IF v < 0 THEN 0 ELSE IF v > top THEN top ELSE v
(* Samples val(x, y) filtered in both directions, vertically first or last *)
Filtered(alg, SW, DW, SH, DH, val(_, _), top, vertical) ==
    LET kx == Kernels(alg, SW, DW)  ky == Kernels(alg, SH, DH) IN
    IF vertical
    THEN LET tmp == TLCEval([i \in 0..(SW - 1) |-> [y \in 0..(DH - 1) |-> Limit(Mean(ky[y], LAMBDA j : val(i, j)), top)]])
         IN  TLCEval([x \in 0..(DW - 1) |-> [y \in 0..(DH - 1) |-> Mean(kx[x], LAMBDA i : tmp[i][y])]])
    ELSE LET tmp == TLCEval([x \in 0..(DW - 1) |-> [j \in 0..(SH - 1) |-> Limit(Mean(kx[x], LAMBDA i : val(i, j)), top)]])
         IN  TLCEval([x \in 0..(DW - 1) |-> [y \in 0..(DH - 1) |-> Mean(ky[y], LAMBDA j : tmp[x][j])]])
=============================================================================
