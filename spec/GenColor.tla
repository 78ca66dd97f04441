------------------------------ MODULE GenColor ------------------------------
(* Scenarios for ColorTrace *)
EXTENDS GenLib, Json

SrcFmt(i) == FormatSeq[1 + (i % 15)]
DstFmt(i) == FormatSeq[1 + ((i \div 15) % 15)]
YuvSeq == SelectSeq(FormatSeq, LAMBDA f : Fmt[f].yuv)
RgbSeq == SelectSeq(FormatSeq, LAMBDA f : ~Fmt[f].yuv)

MatCI(i, k, f, t, p) ==
    IF ~Fmt[f].yuv THEN RgbCI(t, p) ELSE YuvCI(t, p, Pick(i, k, MatSpaces), Chance(i, k + 1, 50))
ColorCI(i, k, f, t, p, spaces) ==
    IF ~Fmt[f].yuv THEN RgbCI(t, p) ELSE YuvCI(t, p, Pick(i, k, spaces), Chance(i, k + 1, 50))

Run(i, k, sf, sci, df, dci, w, h, d) ==
    [op |-> "convert", api |-> Pick(i, k, <<"st", "st", "st", "mt">>), cpus |-> Range(i, k + 1, 1, 5), log |-> "Sv",
     src |-> WithData(AnyLayout(i, k + 100, sf, w, h, sci), d), dst |-> AnyLayout(i, k + 300, df, w, h, dci)]
One_(r) == [op |-> "multi", rel |-> "color", runs |-> <<r>>]

Ws == <<2, 4, 18, 20, 34, 36>>
H(i, k, s) == IF Chance(i, k + 2030, 6) THEN Pick(i, k + 2031, <<6, 8, 10, 12, 16, 18>>) ELSE Pick(i, k, s)
W(i, k) == IF Chance(i, k + 2010, 30) THEN 2 * Range(i, k + 2011, 1, 33) ELSE Pick(i, k, Ws)

(* --- C11: matrix, range, depth, any content --- *)
Matrix(i) ==
    LET sf == SrcFmt(i)  df == DstFmt(i)
        t == Pick(i, 1, Transfers)  p == Pick(i, 2, Primaries)
        sci == MatCI(i, 3, sf, t, p)  dci == MatCI(i, 5, df, t, p)
        sweep == Chance(i, 7, 30)
        w == IF sweep THEN 64 ELSE IF Chance(i, 2000, 2) THEN Pick(i, 2001, <<130, 258, 514>>) ELSE W(i, 8)
        d == IF sweep THEN [m |-> "seq", s |-> Rnd(i, 9, 4096), w |-> w, c |-> Rnd(i, 10, 4096),
                            mul |-> Pick(i, 11, <<1, 1, 3, 7, 17>>)]
             ELSE [m |-> Pick(i, 9, <<"rand", "rand", "edge", "gamut", "gray">>), s |-> Rnd(i, 10, 40000)]
    IN  One_(Run(i, 20, sf, sci, df, dci, w, IF sweep THEN 4 ELSE H(i, 12, <<2, 2, 4>>), d))

(* --- C12: pixels of a block which differ strongly --- *)
SubSeqs == SelectSeq(FormatSeq, LAMBDA f : Fmt[f].comps[3].ssx = 2)
Chroma(i) ==
    LET write == i % 2 = 0
        sub == SubSeqs[1 + ((i \div 2) % Len(SubSeqs))]
        other == FormatSeq[1 + ((i \div 18) % 15)]
        sf == IF write THEN other ELSE sub   df == IF write THEN sub ELSE other
        nl == Chance(i, 1, 50)
        t == Pick(i, 2, Transfers)  p == Pick(i, 3, Primaries)
        t2 == IF nl /\ Chance(i, 4, 50) THEN Pick(i, 5, Transfers) ELSE t
        sci == MatCI(i, 6, sf, t, p)
        dci == IF nl THEN ColorCI(i, 8, df, t2, p, <<"BT709", "ICtCpPQ", "ICtCpHLG">>) ELSE MatCI(i, 8, df, t2, p)
        pq == t = "PQ" /\ (t2 # "PQ" \/ dci.s = "ICtCpHLG")
        d == IF nl \/ Chance(i, 9, 30)
             THEN [m |-> "gamut", s |-> Rnd(i, 10, 40000), lo |-> 1, hi |-> IF pq THEN 14 ELSE 99,
                   amp |-> IF Fmt[sf].yuv \/ pq THEN 2 ELSE 190]
             ELSE [m |-> Pick(i, 11, <<"rand", "edge">>), s |-> Rnd(i, 12, 40000)]
    IN  One_(Run(i, 20, sf, sci, df, dci, W(i, 13), H(i, 14, <<2, 4, 6>>), d))

(* --- C13, C14, C15: through linear light --- *)
(* In-gamut contents; content of PQ images which is converted to something  *)
(* else is restricted to what is below 1                                     *)
Content(i, k, sf, sci, df, dci) ==
    LET ict(f, c) == Fmt[f].yuv /\ c.s \in {"ICtCpPQ", "ICtCpHLG"}
        used == {sci.t, dci.t} \cup (IF ict(sf, sci) THEN {IF sci.s = "ICtCpPQ" THEN "PQ" ELSE "HLG"} ELSE {})
                               \cup (IF ict(df, dci) THEN {IF dci.s = "ICtCpPQ" THEN "PQ" ELSE "HLG"} ELSE {})
        dark == sci.t = "PQ" /\ used # {"PQ"}
        gray == Chance(i, k, 20)
        lim == [lo |-> IF dark THEN 0 ELSE Pick(i, k + 1, <<0, 2, 10, 40>>),
                hi |-> IF dark THEN 14 ELSE Pick(i, k + 2, <<100, 100, 60>>), amp |-> IF dark THEN 1 ELSE Pick(i, k + 3, <<0, 10, 60>>),
                s |-> Rnd(i, k + 4, 40000)]
    IN  IF ict(sf, sci)
        THEN lim @@ [m |-> "viargb", rgb |-> "gamut"]
        ELSE IF gray /\ ~dark /\ ~Fmt[sf].yuv THEN [m |-> "gray", s |-> Rnd(i, k + 4, 40000)]
        ELSE lim @@ [m |-> "gamut"]
Light(i, sf, sci, df, dci) ==
    One_(Run(i, 20, sf, sci, df, dci, W(i, 13), H(i, 14, <<2, 2, 4>>), Content(i, 40, sf, sci, df, dci)))

NT == Len(Transfers)
(* every pair of transfers in turn *)
TransferConv(i) ==
    LET t1 == Transfers[1 + (i % NT)]  t2 == Transfers[1 + ((i \div NT) % NT)]
        p == Pick(i, 1, Primaries)
        sf == Pick(i, 2, FormatSeq)  df == Pick(i, 3, FormatSeq)
    IN  Light(i, sf, MatCI(i, 4, sf, t1, p), df, MatCI(i, 6, df, t2, p))
PrimConv(i) ==
    LET p1 == Primaries[1 + (i % 3)]  p2 == Primaries[1 + ((i \div 3) % 3)]
        t1 == Pick(i, 1, Transfers)  t2 == IF Chance(i, 8, 50) THEN t1 ELSE Pick(i, 9, Transfers)
        sf == Pick(i, 2, FormatSeq)  df == Pick(i, 3, FormatSeq)
    IN  Light(i, sf, MatCI(i, 4, sf, t1, p1), df, MatCI(i, 6, df, t2, p2))
IctcpConv(i) ==
    LET dir == i % 3
        sf == IF dir = 0 THEN Pick(i, 2, FormatSeq) ELSE Pick(i, 2, YuvSeq)
        df == IF dir = 1 THEN Pick(i, 3, FormatSeq) ELSE Pick(i, 3, YuvSeq)
        t1 == Pick(i, 4, Transfers)  t2 == IF Chance(i, 8, 70) THEN t1 ELSE Pick(i, 9, Transfers)
        p1 == Pick(i, 5, Primaries)  p2 == IF Chance(i, 10, 70) THEN p1 ELSE Pick(i, 11, Primaries)
        ict == <<"ICtCpPQ", "ICtCpHLG">>
        ci(k, f, t, p, yes) == IF yes THEN YuvCI(t, p, Pick(i, k, ict), Chance(i, k + 1, 50)) ELSE MatCI(i, k, f, t, p)
    IN  Light(i, sf, ci(6, sf, t1, p1, dir # 0), df, ci(16, df, t2, p2, dir # 1))

(* --- C16: out of gamut contents, every depth and position --- *)
Saturate(i) ==
    LET sf == YuvSeq[1 + (i % Len(YuvSeq))]  df == DstFmt(i \div 2)
        light == Chance(i, 1, 20)
        t == Pick(i, 2, Transfers)  p == Pick(i, 3, Primaries)
        sci == IF light THEN ColorCI(i, 4, sf, t, p, Spaces) ELSE MatCI(i, 4, sf, t, p)
        dci == IF light THEN ColorCI(i, 6, df, Pick(i, 8, Transfers), Pick(i, 9, Primaries), Spaces) ELSE MatCI(i, 6, df, t, p)
    IN  One_(Run(i, 20, sf, sci, df, dci, IF Chance(i, 2020, 40) THEN 2 * Range(i, 2021, 1, 33) ELSE Pick(i, 13, <<18, 34, 36, 50>>),
                 IF Chance(i, 2022, 10) THEN Pick(i, 2023, <<4, 6, 8, 16>>) ELSE 2,
                 [m |-> Pick(i, 14, <<"rand", "edge", "edge">>), s |-> Rnd(i, 15, 40000)]))

(* --- C17: chains ending where they began --- *)
FullSeq == SelectSeq(FormatSeq, LAMBDA f : ~Fmt[f].yuv \/ Fmt[f].comps[2].ssx = 1)
LightT == <<"Linear", "Gamma22", "Gamma28", "SRGB", "SDR", "HLG">>
Chain(i) ==
    LET (* pictures which are constant in blocks of 2x2 don't lose anything by subsampling *)
        blocks == i % 2 = 0
        seq == IF blocks THEN FormatSeq ELSE FullSeq
        kind == Pick(i, 1, <<"matrix", "light", "light", "primaries", "pq">>)
        n == Pick(i, 2, <<3, 3, 4, 5, 6>>)
        t0 == IF kind = "pq" THEN "PQ" ELSE Pick(i, 3, Transfers)
        p0 == Pick(i, 4, Primaries)
        t(j) == CASE kind = "matrix" -> t0 [] kind = "pq" -> "PQ" [] OTHER -> Pick(i, 20 + j, LightT)
        p(j) == IF kind = "primaries" THEN Pick(i, 30 + j, Primaries) ELSE p0
        spaces == CASE kind = "matrix" -> MatSpaces [] kind = "pq" -> MatSpaces \o <<"ICtCpPQ">> [] OTHER -> MatSpaces \o <<"ICtCpHLG">>
        f(j) == Pick(i, 40 + j, seq)
        ci(j) == ColorCI(i, 50 + 2 * j, f(j), t(j), p(j), IF j = 1 THEN MatSpaces ELSE spaces)
        w == W(i, 5)  h == Pick(i, 6, <<2, 2, 4>>)
        mono == kind # "primaries"
        d == [m |-> "gamut", s |-> Rnd(i, 7, 40000), amp |-> IF blocks \/ Fmt[f(1)].yuv THEN 0 ELSE 4,
              lo |-> IF mono THEN 20 ELSE 45, hi |-> IF mono THEN 80 ELSE 65]
        img(j) == AnyLayout(i, 100 + 200 * j, f(j), w, h, ci(j))
    IN  [op |-> "chain", api |-> Pick(i, 8, <<"st", "st", "mt">>), cpus |-> Range(i, 9, 1, 5), every |-> IF kind = "matrix" THEN 1 ELSE 3, pick |-> Rnd(i, 10, 3),
         imgs |-> [j \in 1..n |-> IF j = 1 THEN WithData(img(1), d) ELSE IF j < n THEN img(j) ELSE AnyLayout(i, 90, f(1), w, h, ci(1))]]

(* --- C13: the functions themselves --- *)
(* what is swept: transfer, direction, unit, range of x, scales *)
Curves ==
    LET lin == 134217728  enc == 16777216
        bwd(t) == [t |-> t, dir |-> "bwd", u |-> 10000, lo |-> -enc \div 8, hi |-> enc + enc \div 5, si |-> enc, sid |-> 1, so |-> lin, sod |-> IF t = "PQ" THEN 10000 ELSE 1]
        fwd(t) == [t |-> t, dir |-> "fwd", u |-> 10000, lo |-> -lin \div 8, hi |-> lin + lin \div 5, si |-> lin, sid |-> IF t = "PQ" THEN 10000 ELSE 1, so |-> enc, sod |-> 1]
        (* close to zero *)
        low(c) == [c EXCEPT !.lo = -(c.hi \div 4096), !.hi = c.hi \div 16]
        all == [i \in 1..NT |-> bwd(Transfers[i])] \o [i \in 1..NT |-> fwd(Transfers[i])]
        pq1b == [bwd("PQ") EXCEPT !.u = 1, !.lo = -enc \div 64, !.hi = enc \div 7, !.sod = 1]
        pq1f == [fwd("PQ") EXCEPT !.u = 1, !.sid = 1]
    IN  all \o [i \in 1..(2 * NT) |-> low(all[i])] \o <<pq1b, pq1f, low(pq1b), low(pq1f)>>
NP == 64
CurveSweep(i) ==
    LET c == Curves[1 + (i % Len(Curves))]
        (* every scenario is a range of the curve (in turn) or the whole *)
        n == IF Chance(i, 1, 60) THEN 16 ELSE 1
        part == Rnd(i, 2, n)
        w == c.hi \div n - c.lo \div n
        lo == c.lo + part * w
        step == w \div NP
    IN  [op |-> "transfer", class |-> "curve", t |-> c.t, dir |-> c.dir, u |-> c.u, si |-> c.si, sid |-> c.sid, so |-> c.so, sod |-> c.sod,
         x |-> [k \in 1..NP |-> lo + (k - 1) * step + (Rnd(i, 3 + k, 46337) % (step + 1))]]
FarX == <<-1000, -20, -3, -2, -1, 0, 1, 2, 3, 4, 6, 8>>
CurveFar(i) ==
    LET t == Transfers[1 + (i % NT)]  dir == IF (i \div NT) % 2 = 0 THEN "fwd" ELSE "bwd" IN
    [op |-> "transfer", class |-> "far", t |-> t, dir |-> dir, u |-> 10000, si |-> 1, sid |-> 1, so |-> 1000, sod |-> 1, x |-> FarX]
Mats(i) == [op |-> "primaries", p |-> Primaries[i], so |-> 16777216]

(* --- C20: everything, for the comparison of backends --- *)
Ws20 == <<34, 36, 64, 66, 98>>
Backend(i) ==
    LET sf == SrcFmt(i)  df == DstFmt(i)
        kind == Rnd(i, 1, 10)
        t1 == Pick(i, 2, Transfers)  p1 == Pick(i, 3, Primaries)
        same == kind < 5
        t2 == IF same THEN t1 ELSE Pick(i, 4, Transfers)  p2 == IF same THEN p1 ELSE Pick(i, 5, Primaries)
        sci == IF same THEN MatCI(i, 6, sf, t1, p1) ELSE ColorCI(i, 6, sf, t1, p1, Spaces)
        dci == IF same THEN MatCI(i, 8, df, t2, p2) ELSE ColorCI(i, 8, df, t2, p2, Spaces)
        d == IF kind < 7 THEN [m |-> Pick(i, 10, <<"rand", "edge", "gray">>), s |-> Rnd(i, 11, 40000)] ELSE LET c == Content(i, 40, sf, sci, df, dci) IN
                  (* must not be made by the backend *)
                  IF c.m = "viargb" THEN [m |-> "block2", s |-> Rnd(i, 12, 40000)] ELSE c
        r == Run(i, 20, sf, sci, df, dci, IF Chance(i, 2020, 40) THEN 2 * Range(i, 2021, 1, 66) ELSE Pick(i, 13, Ws20), Pick(i, 14, <<2, 2, 4>>), d)
    IN  [r EXCEPT !.log = "Svba"]
(* ... and of images which must be rejected by both *)
BackendErr(i) ==
    LET f == SrcFmt(i)  g == DstFmt(i)
        w == Range(i, 1, 1, 5)  h == Range(i, 2, 1, 4)
        w2 == IF Chance(i, 3, 30) THEN w ELSE Range(i, 4, 1, 5)
        ci(k, fm) == IF Chance(i, k, 20) THEN RgbCI("SRGB", "BT709") ELSE MatCI(i, k + 1, fm, "SRGB", "BT709")
    IN  [Run(i, 20, f, ci(5, f), g, ci(8, g), w, h, [m |-> "rand", s |-> 3]) EXCEPT
            !.dst = Scattered(i, 400, g, w2, h, ci(8, g)), !.log = "Svba"]

Scenarios ==
    CASE IOEnv.KIND = "backend" -> [i \in 1..(450 * Scale) |-> Backend(i)] \o [i \in 1..(45 * Scale) |-> BackendErr(i)]
      [] IOEnv.KIND = "matrix" -> [i \in 1..(450 * Scale) |-> Matrix(i)]
      [] IOEnv.KIND = "chroma" -> [i \in 1..(360 * Scale) |-> Chroma(i)]
      [] IOEnv.KIND = "transfer" -> [i \in 1..(343 * Scale) |-> TransferConv(i)]
      [] IOEnv.KIND = "primaries" -> [i \in 1..(300 * Scale) |-> PrimConv(i)]
      [] IOEnv.KIND = "curve" -> [i \in 1..(640 * Scale) |-> CurveSweep(i)] \o [i \in 1..14 |-> CurveFar(i - 1)]
      [] IOEnv.KIND = "mats" -> [i \in 1..3 |-> Mats(i)]
      [] IOEnv.KIND = "ictcp" -> [i \in 1..(360 * Scale) |-> IctcpConv(i)]
      [] IOEnv.KIND = "chain" -> [i \in 1..(240 * Scale) |-> Chain(i)]
      [] IOEnv.KIND = "saturate" -> [i \in 1..(450 * Scale) |-> Saturate(i)]

ASSUME ndJsonSerialize(OutFile, Scenarios)
=============================================================================
