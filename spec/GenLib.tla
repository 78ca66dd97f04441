------------------------------- MODULE GenLib -------------------------------
(* Reproducible choices: a hash of (seed of the run, number of the scenario, *)
(* number of the choice). All intermediate values fit into 32 bits.          *)
EXTENDS Formats, TLC, IOUtils

Seed == IF "VERIF_SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.VERIF_SEED) % 40000 ELSE 1
(* how many times the number of scenarios of the quick tier *)
Scale == IF "SCALE" \in DOMAIN IOEnv THEN atoi(IOEnv.SCALE) ELSE 1
OutFile == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE "scen.ndjson"

P == 46337
Mix(a, b) == LET s == ((a % P) * 271 + (b % P) * 12553 + 7919) % P IN (((s * s) % P) + (a % P) + 31 * (b % P)) % P

(* Choice k of scenario i, in 0..n-1 (n <= 46337) *)
Rnd(i, k, n) == Mix(Mix(Mix(Seed, i \div 1000), (i % 1000) + 17), k * 101 + 3) % n
Pick(i, k, s) == s[1 + Rnd(i, k, Len(s))]
Chance(i, k, percent) == Rnd(i, k, 100) < percent
Range(i, k, lo, hi) == lo + Rnd(i, k, hi - lo + 1)

CI(k, t, p, s, full) == [k |-> k, t |-> t, p |-> p, s |-> s, full |-> full]
RgbCI(t, p) == CI("RGB", t, p, "BT709", TRUE)
YuvCI(t, p, s, full) == CI("YUV", t, p, s, full)

Transfers == <<"Linear", "Gamma22", "Gamma28", "SRGB", "SDR", "PQ", "HLG">>
Primaries == <<"ST240", "BT709", "BT2020">>
Spaces    == <<"BT601", "BT709", "BT2020", "ICtCpPQ", "ICtCpHLG">>
MatSpaces == <<"BT601", "BT709", "BT2020">>

(* Memory of a plane: bytes before and after what is given to the library, *)
(* fences and misalignment of the address                                  *)
Mem(pre, len, st, post, g, mis) == [pre |-> pre, len |-> len, st |-> st, post |-> post, g |-> g, mis |-> mis]

(* A tightly packed image of separate planes *)
Packed(f, w, h, ci) ==
    [fmt |-> f, w |-> w, h |-> h, ci |-> ci, ctor |-> "planes", ps |-> 7,
     pl |-> [p \in 1..Fmt[f].np |-> Mem(0, MinLen(f, p, w, h, RowBytes(f, p, w)), RowBytes(f, p, w), 0, "none", 0)]]

(* An image with randomly laid out memory: padding in rows, between and     *)
(* around planes, odd addresses, fences directly before or after the plane  *)
Scattered(i, k, f, w, h, ci) ==
    LET ctor == Pick(i, k, <<"planes", "planes", "raw", "buffer">>)
        pad(p) == Pick(i, k + 10 + p, <<0, 0, 1, 2, 3, 5, 16, 33>>)
        st == [p \in 1..Fmt[f].np |-> RowBytes(f, p, w) + pad(p)]
        slack(p) == Pick(i, k + 20 + p, <<0, 0, 0, 1, 7, 40>>)
        pl == [p \in 1..Fmt[f].np |->
                  LET g == Pick(i, k + 30 + p, <<"tail", "tail", "head", "none">>) IN
                  Mem(IF g = "head" THEN 0 ELSE Range(i, k + 40 + p, 0, 9),
                      MinLen(f, p, w, h, st[p]) + slack(p), st[p],
                      IF g = "tail" THEN 0 ELSE Range(i, k + 50 + p, 0, 9),
                      g, Rnd(i, k + 60 + p, 4))]
        n == Fmt[f].np
        blen == PlaneStart(f, n, h, st) + MinLen(f, n, w, h, st[n]) + slack(1)
    IN  IF ctor # "buffer"
        THEN [fmt |-> f, w |-> w, h |-> h, ci |-> ci, ctor |-> ctor, ps |-> Rnd(i, k + 1, 40000), pl |-> pl]
        ELSE [fmt |-> f, w |-> w, h |-> h, ci |-> ci, ctor |-> ctor, ps |-> Rnd(i, k + 1, 40000),
              strides |-> st,
              pl |-> <<[pl[1] EXCEPT !.len = blen]>>]

(* A scattered image of which only a w x h window is used *)
Windowed(i, k, f, w, h, ci) ==
    LET (* windows begin at multiples of what the format subsamples by *)
        ax == Max3(Fmt[f].comps[1].ssx, Fmt[f].comps[2].ssx, Fmt[f].comps[3].ssx)
        ay == Max3(Fmt[f].comps[1].ssy, Fmt[f].comps[2].ssy, Fmt[f].comps[3].ssy)
        x == ax * Rnd(i, k + 70, 8 \div ax)
        y == ay * Rnd(i, k + 71, 6 \div ay)
        r == ax * Rnd(i, k + 72, 6 \div ax)
        b == ay * Rnd(i, k + 73, 6 \div ay)
        x1 == ax * Rnd(i, k + 74, x \div ax + 1)
        y1 == ay * Rnd(i, k + 75, y \div ay + 1)
        base == Scattered(i, k, f, x + w + r, y + h + b, ci)
        crop == IF Chance(i, k + 76, 50)
                THEN <<[x |-> x, y |-> y, w |-> w, h |-> h]>>
                ELSE <<[x |-> x1, y |-> y1, w |-> x + w + r - x1, h |-> y + h + b - y1],
                       [x |-> x - x1, y |-> y - y1, w |-> w, h |-> h]>>
    IN  base @@ [crop |-> crop]

AnyLayout(i, k, f, w, h, ci) ==
    CASE Rnd(i, k + 80, 10) < 2 -> Packed(f, w, h, ci)
      [] Rnd(i, k + 80, 10) < 6 -> Scattered(i, k, f, w, h, ci)
      [] OTHER -> Windowed(i, k, f, w, h, ci)

(* Rows which are far apart *)
Sparse(i, k, f, w, h, ci) ==
    LET st == [p \in 1..Fmt[f].np |-> RowBytes(f, p, w) + Pick(i, k + 10 + p, <<255, 4096, 32768, 65535, 65536, 70001>>)]
    IN  [fmt |-> f, w |-> w, h |-> h, ci |-> ci, ctor |-> Pick(i, k, <<"planes", "raw">>), ps |-> Rnd(i, k + 1, 40000),
         pl |-> [p \in 1..Fmt[f].np |-> Mem(0, MinLen(f, p, w, h, st[p]), st[p], 0, "tail", 0)]]

(* Rows so far apart that offsets exceed 16, 31 or 32 bits: the distance between *)
(* rows is 2^far larger than described                                         *)
Vast(i, k, f, w, h, ci) == AnyLayout(i, k, f, w, h, ci) @@ [far |-> Pick(i, k + 90, <<16, 24, 30, 31, 31, 32, 32, 33>>)]

(* now and then much wider (or higher) than usual *)
(* or any even width up to the largest one                                    *)
Wide(i, k, s) == CASE Rnd(i, k, 100) < 4 -> Pick(i, k + 1, <<130, 256, 258, 514, 1026>>)
                   [] Rnd(i, k, 100) < 34 -> 2 * Range(i, k + 1, 1, s[Len(s)] \div 2)
                   [] OTHER -> Pick(i, k + 2, s)
(* the height which goes with width w *)
Tall(i, k, w, s) == CASE w <= 50 /\ Rnd(i, k, 100) < 3 -> Pick(i, k + 1, <<40, 66, 100>>)
                      [] w <= 130 /\ Rnd(i, k, 100) < 15 -> 2 * Range(i, k + 1, 1, 10)
                      [] OTHER -> Pick(i, k + 2, s)

WithData(img, d) == img @@ [d |-> d]
=============================================================================
