----------------------------- MODULE GenImages -----------------------------
(* Scenarios for ImagesTrace: constructions, crops and size calculations    *)
EXTENDS GenLib, Json

CI0(f) == IF Fmt[f].yuv THEN YuvCI("Linear", "BT709", "BT709", FALSE) ELSE RgbCI("Linear", "BT709")

Dim(i, k) == IF Chance(i, k, 75) THEN Range(i, k + 1, 1, 9)
             ELSE IF Chance(i, k + 2, 40) THEN Range(i, k + 1, 10, 300)
             ELSE Pick(i, k + 1, <<1, 2, 16, 17, 31, 32, 33, 64>>)

Reg(len, st) == Mem(2, Max2(len, 0), Max2(st, 0), 2, "none", 0)

(* --- construction from separate planes, at most one plane is inadequate --- *)
ConstructPlanes(i) ==
    LET f  == FormatSeq[1 + (i % 15)]
        w  == IF Chance(i, 90, 4) THEN 0 ELSE Dim(i, 1)
        h  == IF Chance(i, 91, 4) THEN 0 ELSE Dim(i, 4)
        np == Fmt[f].np
        bad == 1 + Rnd(i, 7, np)
        nostr == Chance(i, 8, 25)
        st(p) == RowBytes(f, p, w) + (IF nostr THEN 0
                                      ELSE IF p = bad /\ Chance(i, 9, 50) THEN Pick(i, 10, <<-1, -2, 1>>)
                                      ELSE Pick(i, 20 + p, <<0, 0, 1, 3, 64>>))
        dl(p) == IF p = bad THEN Pick(i, 11, <<-1, -1, -2, -7, 0, 0, 0, 1>>) ELSE Pick(i, 30 + p, <<0, 0, 1, 9>>)
        (* number of planes and strides which are actually supplied *)
        n == IF Chance(i, 12, 12) THEN Pick(i, 13, <<np - 1, np + 1>>) ELSE np
        pl == [p \in 1..n |-> LET q == Min2(p, np) IN Reg(MinLen(f, q, w, h, Max2(st(q), 0)) + dl(q), st(q))]
        ns == IF Chance(i, 14, 10) THEN Pick(i, 15, <<np - 1, np + 1, 0>>) ELSE n
        raw == ~nostr /\ Chance(i, 16, 30) /\ w > 0 /\ h > 0
        img == [fmt |-> f, w |-> w, h |-> h, ci |-> CI0(f), ctor |-> IF raw THEN "raw" ELSE "planes", pl |-> pl]
    IN  [op |-> "construct",
         img |-> IF raw THEN img
                 ELSE IF nostr THEN img @@ [nostr |-> TRUE]
                 ELSE img @@ [strides |-> [p \in 1..ns |-> Max2(st(Min2(p, np)), 0)]]]

(* --- construction from a single buffer --- *)
ConstructBuffer(i) ==
    LET f  == FormatSeq[1 + (i % 15)]
        w  == IF Chance(i, 90, 3) THEN 0 ELSE Dim(i, 1)
        h  == IF Chance(i, 91, 3) THEN 0 ELSE Dim(i, 4)
        np == Fmt[f].np
        bad == 1 + Rnd(i, 7, np)
        nostr == Chance(i, 8, 25)
        st == [p \in 1..np |->
                 Max2(RowBytes(f, p, w) + (IF nostr THEN 0
                                      ELSE IF p = bad /\ Chance(i, 9, 20) THEN Pick(i, 10, <<-1, -2>>)
                                      ELSE Pick(i, 20 + p, <<0, 0, 1, 3, 16>>)), 0)]
        exact == PlaneStart(f, np, h, st) + MinLen(f, np, w, h, st[np])
        len == IF Chance(i, 11, 75) THEN exact + Pick(i, 12, <<-1, 0, 0, 1, -2, st[np]>>)
               ELSE Rnd(i, 13, exact + 40)
        ns == IF Chance(i, 14, 10) THEN Pick(i, 15, <<np - 1, np + 1, 0>>) ELSE np
        img == [fmt |-> f, w |-> w, h |-> h, ci |-> CI0(f), ctor |-> "buffer",
                pl |-> <<[pre |-> 2, len |-> Max2(len, 0), post |-> 2, g |-> "none", mis |-> 0]>>]
    IN  [op |-> "construct",
         img |-> IF nostr THEN img @@ [nostr |-> TRUE]
                 ELSE img @@ [strides |-> [p \in 1..ns |-> st[Min2(p, np)]]]]

(* --- crops --- *)
RECURSIVE Wins(_, _, _, _, _, _)
(* Sizes which aren't representable here stand for others, see the harness *)
Huge(i, k) == 2000000000 + 100 * Rnd(i, k, 5) + 2 * Rnd(i, k + 1, 20)

Wins(i, k, f, w, h, n) ==
    IF n = 0 THEN <<>> ELSE
    LET al == IF \E c \in 1..Fmt[f].nc : Fmt[f].comps[c].ssx = 2 THEN 2 ELSE 1
        x  == al * Rnd(i, k, w \div al + 1)
        y  == al * Rnd(i, k + 1, h \div al + 1)
        cw == Rnd(i, k + 2, w - x + 1)
        ch == Rnd(i, k + 3, h - y + 1)
        ww == IF Chance(i, k + 4, 30) THEN w - x ELSE IF Chance(i, k + 5, 70) THEN cw - (cw % 2) ELSE cw
        hh == IF Chance(i, k + 6, 30) THEN h - y ELSE IF Chance(i, k + 7, 70) THEN ch - (ch % 2) ELSE ch
        bad == Chance(i, k + 8, 14)
        win == IF ~bad THEN [x |-> x, y |-> y, w |-> ww, h |-> hh]
               ELSE CASE Rnd(i, k + 9, 10) = 6 -> [x |-> 2000000300 + al * Rnd(i, k + 11, 8), y |-> y, w |-> 2000000300 + al * Rnd(i, k + 12, 8), h |-> hh]
                      [] Rnd(i, k + 9, 10) = 7 -> [x |-> x, y |-> 2000000300 + al * Rnd(i, k + 11, 8), w |-> ww, h |-> 2000000300 + al * Rnd(i, k + 12, 8)]
                      [] Rnd(i, k + 9, 10) = 8 -> [x |-> x, y |-> y, w |-> Huge(i, k + 11), h |-> hh]
                      [] Rnd(i, k + 9, 10) = 9 -> IF Chance(i, k + 13, 50) THEN [x |-> Huge(i, k + 11), y |-> y, w |-> ww, h |-> hh]
                                                 ELSE [x |-> x, y |-> Huge(i, k + 11), w |-> ww, h |-> hh]
                      [] Rnd(i, k + 9, 6) = 0 -> [x |-> x, y |-> y, w |-> w - x + 1 + Rnd(i, k + 10, 3), h |-> hh]
                      [] Rnd(i, k + 9, 6) = 1 -> [x |-> x, y |-> y, w |-> ww, h |-> h - y + 1 + Rnd(i, k + 10, 3)]
                      [] Rnd(i, k + 9, 6) = 2 -> [x |-> w + al, y |-> y, w |-> 0, h |-> hh]
                      [] Rnd(i, k + 9, 6) = 3 -> [x |-> x, y |-> h + al, w |-> ww, h |-> 0]
                      [] Rnd(i, k + 9, 6) = 4 -> [x |-> 2, y |-> y, w |-> 2000000000, h |-> hh]
                      [] OTHER -> [x |-> x, y |-> 2, w |-> ww, h |-> 2000000000]
    IN  <<win>> \o (IF bad THEN <<>> ELSE Wins(i, k + 20, f, ww, hh, n - 1))

CropScen(i) ==
    LET f == FormatSeq[1 + (i % 15)]
        w == IF Chance(i, 2, 60) THEN 2 * Range(i, 3, 1, 9) ELSE Range(i, 3, 1, 40)
        h == IF Chance(i, 4, 60) THEN 2 * Range(i, 5, 1, 7) ELSE Range(i, 5, 1, 30)
        img0 == Scattered(i, 100, f, w, h, CI0(f))
        (* sometimes the parent is an (unchecked) image with inadequate memory *)
        broken == img0.ctor = "raw" /\ Chance(i, 6, 40)
        img == IF ~broken THEN img0
               ELSE [img0 EXCEPT !.pl[1 + Rnd(i, 7, Fmt[f].np)].len =
                        Max2(0, MinLen(f, 1 + Rnd(i, 7, Fmt[f].np), w, h,
                                       img0.pl[1 + Rnd(i, 7, Fmt[f].np)].st) - 1)]
    IN  [op |-> "crop", img |-> img, wins |-> Wins(i, 200, f, w, h, 1 + Rnd(i, 8, 3))]

(* --- size calculations --- *)
LayoutScen(i) ==
    LET f == FormatSeq[1 + (i % 15)]
        w == IF Chance(i, 9, 8) THEN 0 ELSE Dim(i, 1)
        h == IF Chance(i, 8, 8) THEN 0 ELSE Dim(i, 4)
        nostr == Chance(i, 7, 30)
        st == [p \in 1..Fmt[f].np |-> RowBytes(f, p, w) + (IF nostr THEN 0 ELSE Pick(i, 10 + p, <<0, 0, 1, 2, 5, 64>>))]
        len == PlaneStart(f, Fmt[f].np, h, st) + st[Fmt[f].np] * Rows(f, Fmt[f].np, h) + Pick(i, 20, <<0, 0, 0, 3>>)
    IN  [op |-> "layout", fmt |-> f, w |-> w, h |-> h, ci |-> CI0(f), strides |-> st, nostr |-> nostr, len |-> len]

(* Large sizes, for arithmetic *)
LayoutBig(i) ==
    LET f == FormatSeq[1 + (i % 15)]
        d == Pick(i, 1, <<<<1920, 1080>>, <<1280, 720>>, <<3840, 2160>>, <<4096, 64>>, <<65536, 2>>, <<2, 65536>>, <<1366, 768>>>>)
    IN  [op |-> "layout", fmt |-> f, w |-> d[1], h |-> d[2], ci |-> CI0(f), strides |-> PackedStrides(f, d[1]),
         nostr |-> FALSE, len |-> BufferSize(f, d[1], d[2])]

(* A stride so large that no memory can be adequate for more than one row    *)
ConstructHuge(i) ==
    LET f == FormatSeq[1 + (i % 15)]
        w == 2 * Range(i, 1, 1, 20)
        h == 4 + Rnd(i, 2, 20)
        bad == 1 + Rnd(i, 3, Fmt[f].np)
        what == Pick(i, 6, <<"stride", "w", "w", "h", "wh">>)
        (* the powers of two by which a row has no bytes modulo 2^64 *)
        wide == IF Chance(i, 9, 30) THEN Huge(i, 8)
                ELSE 2000000000 + 100 * (IF RowBytes(f, 1, 2) = 8 THEN 2 ELSE 3) + 2 * Rnd(i, 8, 1 + w \div 2)
        st == [p \in 1..Fmt[f].np |-> IF what = "stride" /\ p = bad THEN Huge(i, 7) ELSE IF what = "h" THEN 64 * ((RowBytes(f, p, w) + 63) \div 64) ELSE RowBytes(f, p, w)]
        len == BufferSize(f, w, h)
        high == IF Chance(i, 9, 30) THEN Huge(i, 10) ELSE 2000000000 + 100 * Range(i, 10, 1, 3) + Rnd(i, 11, 6)
        base == [fmt |-> f, w |-> IF what \in {"w", "wh"} THEN wide ELSE w, h |-> IF what \in {"h", "wh"} THEN high ELSE h,
                 ci |-> CI0(f), strides |-> st]
    IN  [op |-> "construct", huge |-> TRUE,
         img |-> IF Chance(i, 5, 25)
                 THEN base @@ [ctor |-> "raw", pl |-> [p \in 1..Fmt[f].np |-> Mem(2, len, st[p], 2, "none", 0)]]
                 ELSE IF Chance(i, 4, 50)
                 THEN base @@ [ctor |-> "buffer", pl |-> <<Mem(2, len, 0, 2, "none", 0)>>]
                 ELSE base @@ [ctor |-> "planes", pl |-> [p \in 1..Fmt[f].np |-> Mem(2, len, 0, 2, "none", 0)]]]

Scenarios ==
    CASE IOEnv.KIND = "construct" ->
            [i \in 1..(900 * Scale) |-> IF i % 2 = 0 THEN ConstructPlanes(i \div 2) ELSE ConstructBuffer(i \div 2)]
            \o [i \in 1..(180 * Scale) |-> ConstructHuge(i)]
      [] IOEnv.KIND = "layout" ->
            <<[op |-> "info"]>> \o
            [i \in 1..(750 * Scale) |-> LayoutScen(i)] \o [i \in 1..(60 * Scale) |-> LayoutBig(i)]
      [] IOEnv.KIND = "crop" -> [i \in 1..(1200 * Scale) |-> CropScen(i)]

ASSUME ndJsonSerialize(OutFile, Scenarios)
=============================================================================
