----------------------------- MODULE GenConvert -----------------------------
(* Scenarios for ConvertTrace *)
EXTENDS GenLib, Json

(* Widths around the size of the SIMD blocks (16 and 32 pixels) *)
Widths == <<2, 4, 14, 16, 18, 30, 32, 34, 46, 48, 50, 64, 66, 96>>
SmallWidths == <<2, 4, 14, 16, 18, 20, 32, 34, 36>>
Heights == <<2, 2, 4, 6>>

SrcFmt(i) == FormatSeq[1 + (i % 15)]
DstFmt(i) == FormatSeq[1 + ((i \div 15) % 15)]

(* any colour which is valid for the format *)
AnyCI(i, k, f) ==
    LET t == Pick(i, k, Transfers)  p == Pick(i, k + 1, Primaries) IN
    IF ~Fmt[f].yuv THEN RgbCI(t, p)
    ELSE YuvCI(t, p, Pick(i, k + 2, Spaces), Chance(i, k + 3, 50))

(* a colour with a matrix space, so that conversions with the same transfer and *)
(* primaries are linear                                                         *)
MatCI(i, k, f, t, p) ==
    IF ~Fmt[f].yuv THEN RgbCI(t, p) ELSE YuvCI(t, p, Pick(i, k + 2, MatSpaces), Chance(i, k + 3, 50))

(* Colours of source and destination: 50% without conversion of the light *)
Colors(i, k, sf, df) ==
    IF Chance(i, k, 50)
    THEN LET t == Pick(i, k + 1, Transfers)  p == Pick(i, k + 2, Primaries)
         IN  <<MatCI(i, k + 3, sf, t, p), MatCI(i, k + 8, df, t, p)>>
    ELSE <<AnyCI(i, k + 3, sf), AnyCI(i, k + 8, df)>>

Rand(i, k) == [m |-> Pick(i, k, <<"rand", "rand", "edge", "gamut", "block2">>), s |-> Rnd(i, k + 1, 40000)]

Cpus(i, k) == IF Chance(i, k, 30) THEN 1 + Rnd(i, k + 1, 4) ELSE 2 + Rnd(i, k + 1, 6)

(* an image whose memory differs in every byte that isn't a sample *)
Inverted(img) == img @@ [inv |-> TRUE]

(* --- C04: two destinations with complementary contents --- *)
Independent(i) ==
    LET copy == i % 10 = 9
        sf == IF copy THEN FormatSeq[1 + Rnd(i, 3, 15)] ELSE SrcFmt(i)
        df == IF copy THEN sf ELSE DstFmt(i)
        w == Wide(i, 2000, SmallWidths)  h == Tall(i, 2005, w, Heights)
        cs == Colors(i, 10, sf, df)
        src == WithData(AnyLayout(i, 100, sf, w, h, cs[1]), Rand(i, 30))
        vast == Chance(i, 2020, 8)
        dci == IF copy THEN cs[1] ELSE cs[2]
        dst == IF vast THEN Vast(i, 300, df, w, h, dci) ELSE AnyLayout(i, 300, df, w, h, dci)
        api == IF copy THEN "copy" ELSE Pick(i, 4, <<"st", "st", "mt">>)
        run == [op |-> "convert", api |-> api, src |-> src, log |-> IF vast THEN "hi" ELSE "ba", cpus |-> Cpus(i, 5)]
    IN  [op |-> "multi", rel |-> "independent",
         runs |-> <<run @@ [dst |-> dst], run @@ [dst |-> Inverted(dst)]>>]

(* --- C05: the same contents in differently laid out memory --- *)
Layouts(i) ==
    LET copy == i % 10 = 9
        sf == IF copy THEN FormatSeq[1 + Rnd(i, 3, 15)] ELSE SrcFmt(i)
        df == IF copy THEN sf ELSE DstFmt(i)
        w == Wide(i, 2000, Widths)  h == Tall(i, 2005, w, Heights)
        cs0 == Colors(i, 10, sf, df)
        cs == IF copy THEN <<cs0[1], cs0[1]>> ELSE cs0
        d == Rand(i, 30)
        sparse(n) == n > 1 /\ Chance(i, 2010 + n, 5)
        vast(n) == n > 1 /\ Chance(i, 2020 + n, 6)
        any(n, k, f, ci) == CASE vast(n) -> Vast(i, k, f, w, h, ci) [] sparse(n) -> Sparse(i, k, f, w, h, ci) [] OTHER -> AnyLayout(i, k, f, w, h, ci)
        run(n) == [op |-> "convert", api |-> IF copy THEN "copy" ELSE Pick(i, 4, <<"st", "st", "mt">>),
                   cpus |-> Cpus(i, 5), log |-> "v",
                   src |-> WithData(IF n = 1 THEN Packed(sf, w, h, cs[1]) ELSE any(n, 100 * n, sf, cs[1]), d),
                   dst |-> IF n = 1 THEN Packed(df, w, h, cs[2]) ELSE any(n + 2, 50 + 100 * n, df, cs[2])]
    IN  [op |-> "multi", rel |-> "layout", runs |-> [n \in 1..3 |-> run(n)]]

(* --- C06: decisions --- *)
WrongCI(i, k, f) == IF Fmt[f].yuv THEN RgbCI(Pick(i, k, Transfers), Pick(i, k + 1, Primaries)) ELSE AnyCI(i, k, f)
(* memory which is too small for the image *)
Damaged(i, k, img) ==
    LET p == 1 + Rnd(i, k, Len(img.pl))
        q == 1 + Rnd(i, k + 1, Len(img.pl))
    IN  CASE Rnd(i, k + 2, 4) = 0 -> [img EXCEPT !.pl[p].len = Max2(0, MinLen(img.fmt, p, img.w, img.h, img.pl[p].st) - 1)]
          [] Rnd(i, k + 2, 4) = 1 -> [img EXCEPT !.pl[p].st = Max2(0, RowBytes(img.fmt, p, img.w) - 1)]
          [] Rnd(i, k + 2, 4) = 2 -> [img EXCEPT !.pl = SubSeq(img.pl, 1, Len(img.pl) - 1)]
          [] OTHER -> [img EXCEPT !.pl[p].len = Rnd(i, k + 3, Max2(1, img.pl[p].len))]
Decide(i) ==
    LET kind == Rnd(i, 1, 10)
        sf == IF kind = 0 THEN DstFmt(i) ELSE SrcFmt(i)
        df == DstFmt(i)
        even == Chance(i, 6, 70)
        w == IF even THEN 2 * Rnd(i, 2, 10) ELSE Rnd(i, 2, 20)
        h == IF even THEN 2 * Rnd(i, 3, 4) ELSE Rnd(i, 3, 8)
        cs == Colors(i, 10, sf, df)
        sci == IF kind \in {1, 2} THEN WrongCI(i, 40, sf) ELSE cs[1]
        dci == CASE kind = 0 -> IF Chance(i, 41, 50) THEN sci ELSE cs[2]
                 [] kind \in {2, 3} -> WrongCI(i, 43, df)
                 [] OTHER -> cs[2]
        dw == IF kind = 4 THEN w + Pick(i, 44, <<0, 2, 1>>) ELSE w
        dh == IF kind = 4 THEN h + Pick(i, 45, <<2, 0, 1>>) ELSE h
        (* zero sized and inadequate images can't be constructed by the library *)
        raw(img) == [img EXCEPT !.ctor = "raw", !.pl = [p \in 1..Len(img.pl) |-> [img.pl[p] EXCEPT !.post = 3, !.g = "none"]]]
        s0 == raw(Packed(sf, w, h, sci))
        d0 == raw(Packed(df, dw, dh, dci))
        (* images as the library constructs them, windows *)
        built(k, ww, hh) == kind \notin {5, 6, 7} /\ ww > 0 /\ hh > 0 /\ Chance(i, k, 40)
        src == IF kind \in {5, 6} THEN Damaged(i, 50, s0) ELSE IF built(70, w, h) THEN AnyLayout(i, 600, sf, w, h, sci) ELSE s0
        dst == IF kind \in {6, 7} THEN Damaged(i, 60, d0) ELSE IF built(71, dw, dh) THEN AnyLayout(i, 800, df, dw, dh, dci) ELSE d0
        run(api, c) == [op |-> "convert", api |-> api, cpus |-> c, log |-> "ba",
                        src |-> WithData(src, [m |-> "raw"]), dst |-> dst]
    IN  [op |-> "multi", rel |-> "decide",
         runs |-> <<run("st", 0), run("mt", 1), run("mt", 2), run("mt", 7)>>
                  \o (IF sf = df /\ Chance(i, 9, 50) THEN <<run("copy", 0)>> ELSE <<>>)]

(* --- C07: single vs. multi threaded --- *)
MtScen(i) ==
    LET sf == SrcFmt(i)  df == DstFmt(i)
        high == Chance(i, 2000, 4)
        w == IF high THEN 2 ELSE IF Chance(i, 2010, 30) THEN 2 * Range(i, 2011, 1, 40) ELSE Pick(i, 1, <<2, 6, 16, 18, 34, 50>>)
        h == IF high THEN Pick(i, 2001, <<510, 512, 1026, 2050>>)
             ELSE IF Chance(i, 2, 20) THEN Pick(i, 3, <<64, 66, 128, 130, 200>>) ELSE 2 * Range(i, 3, 1, 24)
        cs == Colors(i, 10, sf, df)
        vast(k) == h <= 48 /\ Chance(i, k, 4)
        any(k, f, ci) == IF vast(k + 1900) THEN Vast(i, k, f, w, h, ci) ELSE AnyLayout(i, k, f, w, h, ci)
    IN  [op |-> "mt", src |-> WithData(any(100, sf, cs[1]), Rand(i, 30)),
         dst |-> any(300, df, cs[2]),
         cpus |-> <<1, 2, 3, Range(i, 5, 4, 8), Range(i, 6, 9, 40), Pick(i, 7, <<64, 100, 128, 256, 300, h \div 2, Max2(1, h \div 2 - 1), h \div 2 + 1>>)>>]
MtDecide(i) ==
    LET d == Decide(i) IN
    [op |-> "mt", src |-> d.runs[1].src, dst |-> d.runs[1].dst, cpus |-> <<1, 2, 3, 8>>]

(* --- C08: windows --- *)
Window(i, k, w, h) ==
    LET ww == IF Chance(i, k, 50) THEN 2 ELSE 2 * Range(i, k + 1, 1, w \div 2)
        hh == 2 * Range(i, k + 2, 1, h \div 2)
    IN  [x |-> 2 * Rnd(i, k + 3, (w - ww) \div 2 + 1), y |-> 2 * Rnd(i, k + 4, (h - hh) \div 2 + 1), w |-> ww, h |-> hh]
(* the contents of a window are the contents of the image at its position *)
TileRun(i, k, sf, df, w, h, cs, d, win) ==
    LET far(kk) == IF Chance(i, kk + 50, 3) THEN [far |-> Pick(i, kk + 51, <<16, 30, 31, 32>>)] ELSE <<>>
        crop(img) == img @@ [crop |-> <<win>>] @@ far(win.w + win.x) IN
    [op |-> "convert", api |-> "st", cpus |-> 0, log |-> "v", win |-> win,
     src |-> WithData(crop(Scattered(i, k, sf, w, h, cs[1])), d @@ [ox |-> win.x, oy |-> win.y]),
     dst |-> crop(Scattered(i, k + 100, df, w, h, cs[2]))]
Tile(i) ==
    LET sf == SrcFmt(i)  df == DstFmt(i)
        w == Wide(i, 2000, <<18, 34, 36, 48, 50, 66>>)  h == Tall(i, 2005, w, Heights)
        lin == Chance(i, 10, 60)
        t == Pick(i, 11, Transfers)  p == Pick(i, 12, Primaries)
        cs == IF lin THEN <<MatCI(i, 13, sf, t, p), MatCI(i, 17, df, t, p)>>
              ELSE <<MatCI(i, 13, sf, Pick(i, 21, Transfers), Pick(i, 22, Primaries)),
                     MatCI(i, 17, df, Pick(i, 23, Transfers), Pick(i, 24, Primaries))>>
        d == [m |-> IF lin THEN Pick(i, 30, <<"rand", "edge", "gamut">>) ELSE "gamut", s |-> Rnd(i, 31, 40000)]
    IN  [op |-> "multi", rel |-> "tile", tol |-> 1,
         runs |-> <<TileRun(i, 100, sf, df, w, h, cs, d, [x |-> 0, y |-> 0, w |-> w, h |-> h])>>
                  \o [n \in 1..4 |-> TileRun(i, 100 + 200 * n, sf, df, w, h, cs, d, Window(i, 40 + 10 * n, w, h))]]

(* --- C09: dependencies --- *)
Perturb(i) ==
    LET sf == SrcFmt(i)  df == DstFmt(i)
        w == Wide(i, 2000, <<2, 6, 16, 18, 20, 34>>)  h == Tall(i, 2005, w, <<2, 4>>)
        cs0 == Colors(i, 10, sf, df)
        cs == IF Chance(i, 9, 25) /\ ~Fmt[sf].yuv /\ ~Fmt[df].yuv THEN <<cs0[1], cs0[1]>> ELSE cs0
        pt(n) == LET c == 1 + Rnd(i, 40 + n, Fmt[sf].nc) IN
                 <<c - 1, Rnd(i, 60 + n, CompW(sf, c, w)), Rnd(i, 80 + n, CompH(sf, c, h))>>
    IN  [op |-> "perturb", api |-> Pick(i, 4, <<"st", "st", "st", "mt">>), cpus |-> Cpus(i, 5), must |-> cs[1].t = cs[2].t /\ cs[1].p = cs[2].p /\ ~\E n \in 1..2 : cs[n].s \in {"ICtCpPQ", "ICtCpHLG"},
         src |-> WithData(AnyLayout(i, 100, sf, w, h, cs[1]), [m |-> "gamut", s |-> Rnd(i, 6, 40000), lo |-> 30, hi |-> 70]),
         dst |-> AnyLayout(i, 300, df, w, h, cs[2]), pts |-> [n \in 1..12 |-> pt(n)]]

(* --- C10: exact copies --- *)
SameLayout == <<<<"I420", "NV12">>, <<"NV12", "I420">>, <<"I422", "YUYV">>, <<"YUYV", "I422">>>>
RgbPairs == <<<<"RGB", "BGR">>, <<"BGR", "RGB">>, <<"RGBA", "BGRA">>, <<"BGRA", "RGBA">>, <<"RGB", "RGBA">>,
              <<"BGR", "RGBA">>, <<"RGBA", "RGB">>, <<"BGRA", "BGR">>, <<"BGR", "BGRA">>, <<"RGB", "BGRA">>,
              <<"RGBA", "BGR">>, <<"BGRA", "RGB">>>>
Identical(i) ==
    LET kind == i % 3
        f0 == FormatSeq[1 + ((i \div 3) % 15)]
        pr == CASE kind = 0 -> <<f0, f0>>
                [] kind = 1 -> RgbPairs[1 + ((i \div 3) % 12)]
                [] OTHER -> SameLayout[1 + ((i \div 3) % 4)]
        w == Wide(i, 2000, Widths)  h == Tall(i, 2005, w, Heights)
        ci == IF kind = 0
              THEN (IF Chance(i, 8, 10) THEN WrongCI(i, 10, pr[1]) ELSE AnyCI(i, 10, pr[1]))
              ELSE MatCI(i, 10, pr[1], Pick(i, 15, Transfers), Pick(i, 16, Primaries))
        sparse(n) == Chance(i, 2010 + n, 5)
        vast(n) == Chance(i, 2020 + n, 5)
        any(n, k, f) == CASE vast(n) -> Vast(i, k, f, w, h, ci) [] sparse(n) -> Sparse(i, k, f, w, h, ci) [] OTHER -> AnyLayout(i, k, f, w, h, ci)
        d == IF Chance(i, 20, 30)
             THEN [m |-> "seq", s |-> Rnd(i, 21, 4096), w |-> w, c |-> 37]
             ELSE [m |-> Pick(i, 22, <<"rand", "edge">>), s |-> Rnd(i, 23, 40000)]
        api == IF kind = 0 THEN Pick(i, 24, <<"st", "mt", "copy">>) ELSE Pick(i, 24, <<"st", "mt">>)
    IN  [op |-> "multi", rel |-> "identical",
         runs |-> <<[op |-> "convert", api |-> api, cpus |-> Cpus(i, 25), log |-> "Sv",
                     src |-> WithData(any(1, 100, pr[1]), d),
                     dst |-> any(2, 300, pr[2])]>>]

(* every code of every component, by the vectorized and by the scalar code *)
CodeW(i) == IF i % 2 = 0 THEN 2 ELSE 128
IdPair(n) == IF n < 15 THEN <<FormatSeq[n + 1], FormatSeq[n + 1]>> ELSE IF n < 27 THEN RgbPairs[n - 14] ELSE SameLayout[n - 26]
EveryCode(i) ==
    LET pr == IdPair((i \div 2) % 31)  w == CodeW(i)  codes == Fmt[pr[1]].max + 1
        h == Max2(2, (codes * Max3(Fmt[pr[1]].comps[2].ssx * Fmt[pr[1]].comps[2].ssy, Fmt[pr[2]].comps[2].ssx * Fmt[pr[2]].comps[2].ssy, 1)) \div w)
        ci == MatCI(i, 10, pr[1], Pick(i, 15, Transfers), Pick(i, 16, Primaries))
    IN  [op |-> "multi", rel |-> "identical",
         runs |-> <<[op |-> "convert", api |-> Pick(i, 24, <<"st", "st", "mt">>), cpus |-> Cpus(i, 25), log |-> "Sv",
                     src |-> WithData(Packed(pr[1], w, h, ci), [m |-> "seq", s |-> Rnd(i, 21, 4096), w |-> w, c |-> 37]),
                     dst |-> Packed(pr[2], w, h, ci)]>>]

(* --- large images, of which only digests and small parts are recorded --- *)
BigSizes == <<<<1280, 720>>, <<640, 362>>, <<4098, 18>>, <<18, 4098>>, <<20002, 2>>, <<2, 20002>>, <<1026, 514>>, <<300, 1000>>>>
BigPick(i) == BigSizes[1 + ((i - 1 + Seed) % Len(BigSizes))]
BigColors(i, sf, df) ==
    LET t == Pick(i, 11, Transfers)  p == Pick(i, 12, Primaries) IN
    IF Chance(i, 10, 70) THEN <<MatCI(i, 13, sf, t, p), MatCI(i, 17, df, t, p)>>
    ELSE <<MatCI(i, 13, sf, Pick(i, 21, Transfers), p), MatCI(i, 17, df, Pick(i, 23, Transfers), Pick(i, 24, Primaries))>>
Big(i, what) ==
    LET copy == i % 8 = 7
        sf == Pick(i, 3, FormatSeq)
        df == IF copy THEN sf ELSE Pick(i, 4, FormatSeq)
        sz == BigPick(i)  w == sz[1]  h == sz[2]
        cs0 == BigColors(i, sf, df)
        cs == IF copy THEN <<cs0[1], cs0[1]>> ELSE cs0
        (* "gamut" is slow if the transfer function has to be applied *)
        d == [m |-> "rand", s |-> Rnd(i, 31, 40000)]
        api == IF copy THEN "copy" ELSE Pick(i, 5, <<"st", "st", "mt">>)
        run(n, log) == [op |-> "convert", api |-> api, cpus |-> Cpus(i, 6), log |-> log,
                        src |-> WithData(AnyLayout(i, 100 * n, sf, w, h, cs[1]), d),
                        dst |-> AnyLayout(i, 50 + 100 * n, df, w, h, cs[2])]
        one == run(1, "hi")
    IN  CASE what = "independent" ->
               [op |-> "multi", rel |-> "independent", runs |-> <<one, [one EXCEPT !.dst = Inverted(one.dst)]>>]
          [] what = "layout" ->
               [op |-> "multi", rel |-> "layout", runs |-> <<run(1, "h"), run(2, "h")>>]
          [] what = "mt" ->
               [op |-> "mt", src |-> one.src, dst |-> one.dst, cpus |-> <<1, 3, Range(i, 7, 4, 40)>>]

(* windows at the end and anywhere else *)
Far(i) ==
    LET sf == Pick(i, 3, FormatSeq)  df == Pick(i, 4, FormatSeq)
        sz == BigPick(i)  w == sz[1]  h == sz[2]
        cs == BigColors(i, sf, df)
        same == cs[1].t = cs[2].t /\ cs[1].p = cs[2].p
        d == [m |-> IF same THEN "rand" ELSE "gamut", s |-> Rnd(i, 31, 40000)]
        ww == Min2(w, 34)  hh == Min2(h, 4)
        win(n) == [w |-> ww, h |-> hh,
                   x |-> IF n = 1 THEN w - ww ELSE 2 * Rnd(i, 40 + n, (w - ww) \div 2 + 1),
                   y |-> IF n = 1 THEN h - hh ELSE 2 * Rnd(i, 50 + n, (h - hh) \div 2 + 1)]
        crop(img, n) == img @@ [crop |-> <<win(n)>>]
        part(n) == [op |-> "convert", api |-> "st", cpus |-> 0, log |-> "v", win |-> win(n),
                    src |-> WithData(crop(Scattered(i, 300 * n, sf, w, h, cs[1]), n), d @@ [ox |-> win(n).x, oy |-> win(n).y]),
                    dst |-> crop(Scattered(i, 150 + 300 * n, df, w, h, cs[2]), n)]
    IN  [op |-> "multi", rel |-> "far", tol |-> 1,
         runs |-> <<[op |-> "convert", api |-> Pick(i, 5, <<"st", "mt">>), cpus |-> Cpus(i, 6), log |-> "w",
                     wins |-> [n \in 1..3 |-> win(n)],
                     src |-> WithData(Scattered(i, 60, sf, w, h, cs[1]), d),
                     dst |-> Scattered(i, 80, df, w, h, cs[2])]>> \o [n \in 1..3 |-> part(n)]]

BigIdentical(i) ==
    LET pr == IdPair(Rnd(i, 3, 31))
        sz == BigPick(i)  w == sz[1]  h == sz[2]
        ci == MatCI(i, 10, pr[1], Pick(i, 15, Transfers), Pick(i, 16, Primaries))
    IN  [op |-> "multi", rel |-> "identical",
         runs |-> <<[op |-> "convert", api |-> IF pr[1] = pr[2] THEN Pick(i, 4, <<"copy", "st", "mt">>) ELSE Pick(i, 4, <<"st", "mt">>), cpus |-> Cpus(i, 25), log |-> "Hhi",
                     src |-> WithData(AnyLayout(i, 100, pr[1], w, h, ci), [m |-> "rand", s |-> Rnd(i, 21, 4096)]),
                     dst |-> AnyLayout(i, 300, pr[2], w, h, ci)]>>]

Scenarios ==
    CASE IOEnv.KIND = "independent" -> [i \in 1..(450 * Scale) |-> Independent(i)] \o [i \in 1..(8 * Scale) |-> Big(i, "independent")]
      [] IOEnv.KIND = "layout" -> [i \in 1..(450 * Scale) |-> Layouts(i)] \o [i \in 1..(8 * Scale) |-> Big(i, "layout")]
      [] IOEnv.KIND = "decide" -> [i \in 1..(900 * Scale) |-> Decide(i)]
      [] IOEnv.KIND = "mt" -> [i \in 1..(450 * Scale) |-> MtScen(i)] \o [i \in 1..(200 * Scale) |-> MtDecide(i)] \o [i \in 1..(8 * Scale) |-> Big(i, "mt")]
      [] IOEnv.KIND = "tile" -> [i \in 1..(450 * Scale) |-> Tile(i)] \o [i \in 1..(8 * Scale) |-> Far(i)]
      [] IOEnv.KIND = "perturb" -> [i \in 1..(450 * Scale) |-> Perturb(i)]
      [] IOEnv.KIND = "identical" -> [i \in 1..(900 * Scale) |-> Identical(i)] \o [i \in 1..62 |-> EveryCode(i)] \o [i \in 1..(8 * Scale) |-> BigIdentical(i)]

ASSUME ndJsonSerialize(OutFile, Scenarios)
=============================================================================
