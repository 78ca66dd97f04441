-------------------------------- MODULE Color --------------------------------
(***************************************************************************)
(* Which value the samples of a converted image have.                       *)
(*                                                                         *)
(* Everything is calculated with intervals which contain the exact result    *)
(* of the defining equations, plus the error a 32 bit floating point         *)
(* implementation may make (Eps*, LinErr). A sample is correct if it is the  *)
(* rounding of some value of the interval.                                  *)
(***************************************************************************)
EXTENDS Formats, Fixed, TLC, Json

---------------------------------------------------------------------------
(* Intervals *)

I(x) == <<x, x>>
IAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
ISub(a, b) == <<a[1] - b[2], a[2] - b[1]>>
IMul(a, c) == IF c >= 0 THEN <<Mul(a[1], c), Mul(a[2], c) + 1>> ELSE <<Mul(a[2], c), Mul(a[1], c) + 1>>
IWiden(a, e) == <<a[1] - e, a[2] + e>>
IDiv(a, n) == <<a[1] \div n, (a[2] + n - 1) \div n>>
IAbs(a) == FMax(FAbs(a[1]), FAbs(a[2]))

(* row * (x, y, z) *)
Dot(row, v) == IAdd(IAdd(IMul(v[1], row[1]), IMul(v[2], row[2])), IMul(v[3], row[3]))
Apply(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>

(* Not a color the result is specified for: outside of what the transfer     *)
(* functions are defined for                                                *)
Wild == <<>>

---------------------------------------------------------------------------
(* Luma coefficients of the YCbCr spaces, in 1/10000 *)
Kr == [BT601 |-> 2990, BT709 |-> 2126, BT2020 |-> 2627]
Kb == [BT601 |-> 1140, BT709 |-> 722, BT2020 |-> 593]
MatrixSpaces == {"BT601", "BT709", "BT2020"}

LumaCoeff == TLCEval([s \in MatrixSpaces |->
    <<Quo(Kr[s], 10000), Quo(10000 - Kr[s] - Kb[s], 10000), Quo(Kb[s], 10000)>>])
(* B' - Y' = Cb * UB, R' - Y' = Cr * VR, as inverse: UBi, VRi *)
UB == TLCEval([s \in MatrixSpaces |-> Quo(20000 - 2 * Kb[s], 10000)])
VR == TLCEval([s \in MatrixSpaces |-> Quo(20000 - 2 * Kr[s], 10000)])
UBi == TLCEval([s \in MatrixSpaces |-> Quo(10000, 20000 - 2 * Kb[s])])
VRi == TLCEval([s \in MatrixSpaces |-> Quo(10000, 20000 - 2 * Kr[s])])
(* Kb/Kg, Kr/Kg *)
KbKg == TLCEval([s \in MatrixSpaces |-> Quo(Kb[s], 10000 - Kr[s] - Kb[s])])
KrKg == TLCEval([s \in MatrixSpaces |-> Quo(Kr[s], 10000 - Kr[s] - Kb[s])])

YuvToRgb(s, y, u, v) ==
    LET b == IMul(u, UB[s])  r == IMul(v, VR[s])
    IN  <<IAdd(y, r), ISub(y, IAdd(IMul(b, KbKg[s]), IMul(r, KrKg[s]))), IAdd(y, b)>>

RgbToYuv(s, rgb) ==
    LET y == Dot(LumaCoeff[s], rgb)
        (* the difference is formed first, so that the intervals stay exact for greys *)
        c(comp, i, j, inv) ==
            IMul(IAdd(IMul(ISub(comp, rgb[i]), LumaCoeff[s][i]), IMul(ISub(comp, rgb[j]), LumaCoeff[s][j])), inv)
    IN  <<y, c(rgb[3], 1, 2, UBi[s]), c(rgb[1], 2, 3, VRi[s])>>

---------------------------------------------------------------------------
(* Codes. Values of a normalized component are code / max. Limited range:   *)
(* [16, 235] / 255 for luma, [16, 240] / 255 for chroma at every bit depth.   *)
(* Chroma is centered at one half.                                          *)

Norm255  == TLCEval([v \in 0..255 |-> Quo(v, 255)])
Norm1023 == TLCEval([v \in 0..1023 |-> Quo(v, 1023)])
Norm4095 == TLCEval([v \in 0..4095 |-> Quo(v, 4095)])
Norm(f, v) == IF Fmt[f].depth = 8 THEN Norm255[v] ELSE IF Fmt[f].depth = 10 THEN Norm1023[v] ELSE Norm4095[v]

V16 == TLCEval(Quo(16, 255))
Half == One \div 2
(* the product of two numbers of 24 fractional bits is rounded down *)
YDec == TLCEval(Quo(255, 219))
CDec == TLCEval(Quo(255, 224))
YEnc == TLCEval(Quo(219, 255))
CEnc == TLCEval(Quo(224, 255))

(* n: the normalized code *)
LumaIn(full, n) == IF full THEN n ELSE IMul(ISub(n, I(V16)), YDec)
ChromaIn(full, n) == IF full THEN ISub(n, I(Half)) ELSE ISub(IMul(ISub(n, I(V16)), CDec), I(Half))

LumaOut(full, a) == IF full THEN a ELSE IAdd(IMul(a, YEnc), I(V16))
ChromaOut(full, a) == LET c == IAdd(a, I(Half)) IN IF full THEN c ELSE IAdd(IMul(c, CEnc), I(V16))

(* rounding error of the arithmetic on encoded values: 2^-20 *)
EpsEnc == 16

(* a * max with 16 fractional bits, a between -1 and 3 *)
ToCode(a, max) ==
    LET x == FMin(FMax(a, -One), 3 * One) IN (x \div 4096) * max * 16 + ((x % 4096) * max) \div 256

(* Is the code `v` the rounding of a value of the interval, clamped to the    *)
(* range of codes?                                                          *)
Rounds(a, v, max) ==
    LET lo == FMax(0, FMin(ToCode(a[1] - EpsEnc, max), max * 65536)) - 32768
        hi == FMax(0, FMin(ToCode(a[2] + EpsEnc, max), max * 65536)) + 32768
    IN  v <= max /\ v * 65536 >= lo - 64 /\ v * 65536 <= hi + 64

---------------------------------------------------------------------------
(* Transfer functions, given by tables of the decoding function (encoded     *)
(* value to linear light), encoding is its inverse.                          *)
(* PQ is relative to 10000 (U = 10000) or to 1 (U = 1), see Unit.             *)

Tab == JsonDeserialize("tables.json")
TabName(t, U) == IF t = "PQ" /\ U = 1 THEN "PQ1" ELSE t
(* encoded values are a multiple of this *)
TabStep(n) == IF n = "PQ1" THEN 512 ELSE 4096

(* Error of decoding (relative) and encoding (absolute). PQ is ill-conditioned: *)
(* its exponents multiply the rounding error of the arguments of the powers     *)
LinErr(t, x) == FAbs(x) \div (IF t = "PQ" THEN 8192 ELSE 131072) + 2
EncErr(t) == IF t = "PQ" THEN 320 ELSE EpsEnc

(* Decoding: the chord of a convex function is above it *)
DecHi(n, x) ==
    LET st == TabStep(n)  i == x \div st  m == (x % st) * (4096 \div st)
        a == Tab[n][i + 1]  b == Tab[n][i + 2]
    IN  a + Frac(b - a, m) + 1
DecLo(n, x) ==
    LET st == TabStep(n)  i == x \div st  m == (x % st) * (4096 \div st)
        a == Tab[n][i + 1]  b == Tab[n][i + 2]
    IN  a + Frac(b - a, m) - (IF m = 0 THEN 0 ELSE (b - a) \div (4 * (i + 1))) - 1

(* What is brighter than 5/4 isn't specified *)
TopL == LOne + LOne \div 4
TopIndex == TLCEval([n \in DOMAIN Tab |->
    IF Tab[n][Len(Tab[n])] <= TopL THEN Len(Tab[n]) ELSE (CHOOSE i \in 1..Len(Tab[n]) : Tab[n][i] > TopL /\ Tab[n][i - 1] <= TopL) - 1])
TopE(t, U) == IF t = "Linear" THEN One + Half \div 2 ELSE (TopIndex[TabName(t, U)] - 1) * TabStep(TabName(t, U))

DecDefined(t, U, a) == a[1] > -One \div 4 /\ a[2] < TopE(t, U)
EncDefined(t, U, a) == a[1] > -LOne \div 4 /\ a[2] < FMin(TopL, IF t = "Linear" THEN TopL ELSE Tab[TabName(t, U)][TopIndex[TabName(t, U)]])

(* BT.709: the two parts of the function don't meet exactly (0.018, 0.081) *)
SdrJoint(t, x, lo, hi, e) == IF t = "SDR" /\ x >= lo /\ x <= hi THEN e ELSE 0

(* Negative values are either clamped, or continue the linear part *)
Dec(t, U, a) ==
    IF t = "Linear" THEN <<8 * a[1], 8 * a[2]>>
    ELSE LET n == TabName(t, U)
             (* PQ isn't defined above 1: clamped or extended *)
             a1 == IF t = "PQ" THEN FMin(a[1], One) ELSE a[1]
             lo == IF a[1] < 0 THEN 2 * a[1] ELSE DecLo(n, a1) - SdrJoint(t, a[1], 1325400, 1392509, 8192)
             hi == IF a[2] < 0 THEN 0 ELSE DecHi(n, a[2]) + SdrJoint(t, a[2], 1325400, 1392509, 8192)
         IN  <<lo - LinErr(t, lo), hi + LinErr(t, hi)>>

(* the largest index in lo..hi (1-based) whose value is at most x *)
RECURSIVE Search(_, _, _, _)
Search(tab, x, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2 IN
         IF tab[mid] <= x THEN Search(tab, x, mid, hi) ELSE Search(tab, x, lo, mid - 1)

(* position of x between a and b, in 1/4096 *)
Pos(x, a, b) == LET d == b - a IN IF d > 262144 THEN (((x - a) \div 64) * 4096) \div (d \div 64 + 1) ELSE ((x - a) * 4096) \div d

EncLo(n, x) ==
    IF x <= 0 THEN 0 ELSE
    LET tab == Tab[n]  i == Search(tab, x - 1, 1, Len(tab))
    IN  ((i - 1) * TabStep(n)) + (IF tab[i] = x - 1 THEN 0 ELSE (Pos(x - 1, tab[i], tab[i + 1]) * TabStep(n)) \div 4096)
EncHi(n, x) ==
    LET tab == Tab[n]  i == Search(tab, x + 1, 1, Len(tab) - 1)
    IN  (i - 1) * TabStep(n) + ((Pos(x + 1, tab[i], tab[i + 1]) + 2) * TabStep(n)) \div 4096
        (* the chord of the concave function is below it *)
        + TabStep(n) \div (8 * i) + 1

Enc(t, U, a) ==
    IF t = "Linear" THEN <<a[1] \div 8, a[2] \div 8 + 1>>
    ELSE LET n == TabName(t, U)
             lo == IF a[1] < 0 THEN 2 * a[1] ELSE EncLo(n, a[1])
             hi == IF a[2] < 0 THEN 0 ELSE EncHi(n, a[2])
         IN  <<lo - EncErr(t) - SdrJoint(t, lo, 1325400, 1392509, 5033),
               hi + EncErr(t) + SdrJoint(t, hi, 1325400, 1392509, 5033)>>

---------------------------------------------------------------------------
(* Primaries: to and from CIE XYZ *)

RgbToXyz == [
    ST240  |-> <<<<6602185, 6128014, 3215806>>, <<3563084, 11761833, 1452299>>, <<314390, 1877940, 16079028>>>>,
    BT709  |-> <<<<6918770, 5999270, 3027965>>, <<3567491, 11998539, 1211186>>, <<324317, 1999757, 15947283>>>>,
    BT2020 |-> <<<<10686383, 2426269, 2833353>>, <<4407378, 11374920, 994918>>, <<0, 470982, 17800375>>>>]
XyzToRgb == [
    ST240  |-> <<<<58820974, -29188845, -9127783>>, <<-17935642, 33181624, 590078>>, <<944668, -3304703, 17615277>>>>,
    BT709  |-> <<<<54374453, -25793010, -8365300>>, <<-16261210, 31473512, 697178>>, <<933318, -3422165, 17733039>>>>,
    BT2020 |-> <<<<28800628, -5967166, -4250781>>, <<-11185107, 27120055, 264552>>, <<295948, -717572, 15805868>>>>]
AllPrimaries == {"ST240", "BT709", "BT2020"}

(* CIE XYZ to LMS (BT.2100, with crosstalk) in 1/10000 and its inverse *)
XyzToLms == <<<<6028054, 11703786, -602302>>, <<-3222903, 18463326, 1265002>>, <<119118, 1254936, 14148226>>>>
LmsToXyz == <<<<34729416, -22250467, 3467890>>, <<6119486, 11417662, -760349>>, <<-835191, -825404, 19932963>>>>

(* L'M'S' to ICtCp (integers / 4096) and inverse *)
LmsToIctcp == [
    PQ  |-> <<<<8388608, 8388608, 0>>, <<27074560, -55758848, 28684288>>, <<73453568, -71229440, -2224128>>>>,
    HLG |-> <<<<8388608, 8388608, 0>>, <<14848000, -30576640, 15728640>>, <<38912000, -37732352, -1179648>>>>]
IctcpToLms == [
    PQ  |-> <<<<16777216, 144436, 1862768>>, <<16777216, -144436, -1862768>>, <<16777216, 9395767, -5379231>>>>,
    HLG |-> <<<<16777216, 263714, 3516187>>, <<16777216, -263714, -3516187>>, <<16777216, 17134086, -10154821>>>>]

IsIctcp(ci) == ci.k = "YUV" /\ ci.s \in {"ICtCpPQ", "ICtCpHLG"}
IctcpKind(ci) == IF ci.s = "ICtCpPQ" THEN "PQ" ELSE "HLG"

(* A floating point matrix product is as exact as its largest term *)
ApplyLin(m, v) ==
    IF v = Wild THEN Wild ELSE
    LET top == FMax(IAbs(v[1]), FMax(IAbs(v[2]), IAbs(v[3])))  e == top \div 262144 + 2  r == Apply(m, v)
    IN  IF top > 2 * LOne THEN Wild ELSE <<IWiden(r[1], e), IWiden(r[2], e), IWiden(r[3], e)>>

Dec3(t, U, v) == IF v = Wild THEN Wild ELSE IF \A i \in 1..3 : DecDefined(t, U, v[i]) THEN <<Dec(t, U, v[1]), Dec(t, U, v[2]), Dec(t, U, v[3])>> ELSE Wild
Enc3(t, U, v) == IF v = Wild THEN Wild ELSE IF \A i \in 1..3 : EncDefined(t, U, v[i]) THEN <<Enc(t, U, v[1]), Enc(t, U, v[2]), Enc(t, U, v[3])>> ELSE Wild

---------------------------------------------------------------------------
(* Conversion of a pixel. ci: color of source and destination. *)

LightChanges(sci, dci) == sci.t # dci.t \/ sci.p # dci.p
ThroughLight(sci, dci) == LightChanges(sci, dci) \/ IsIctcp(sci) \/ IsIctcp(dci)

(* Linear light is relative to 10000 if everything is PQ, otherwise to 1 *)
Unit(sci, dci) ==
    IF \A t \in {sci.t, dci.t} \cup (IF IsIctcp(sci) THEN {IctcpKind(sci)} ELSE {})
                \cup (IF IsIctcp(dci) THEN {IctcpKind(dci)} ELSE {}) : t = "PQ"
    THEN 10000 ELSE 1

(* Normalized codes of a pixel, and those which are up to `d` / 16 codes away *)
NormCodes(f, c) == <<I(Norm(f, c[1])), I(Norm(f, c[2])), I(Norm(f, c[3]))>>
CodesAround(f, c, d) == LET e == (d * (One \div Fmt[f].max)) \div 16 + 1 IN
    <<IWiden(I(Norm(f, c[1])), e), IWiden(I(Norm(f, c[2])), e), IWiden(I(Norm(f, c[3])), e)>>

(* Encoded components of a pixel (R'G'B' or luma and chroma) from its codes *)
FromCodes(f, ci, n) ==
    IF Fmt[f].yuv THEN <<LumaIn(ci.full, n[1]), ChromaIn(ci.full, n[2]), ChromaIn(ci.full, n[3])>> ELSE n

Encoded(f, ci, c) ==
    LET v == FromCodes(f, ci, c) IN
    IF Fmt[f].yuv THEN YuvToRgb(ci.s, v[1], v[2], v[3]) ELSE v

(* Encoding and decoding a color, which may or may not clamp what the encoding *)
(* isn't defined for: negative values, PQ above 1                              *)
InGamut(t, U, lin) == lin # Wild /\ \A i \in 1..3 : EncDefined(t, U, lin[i]) /\ lin[i][1] > -LOne \div 1024
Clamped(t, U, lin) == [i \in 1..3 |->
    LET top == IF t = "PQ" /\ U = 10000 THEN FMin(lin[i][1], LOne) ELSE lin[i][1]
    IN  <<top, IF lin[i][1] < 0 THEN FMax(0, lin[i][2]) ELSE lin[i][2]>>]

(* Linear RGB (of the image's primaries) of a pixel *)
LinearOf(f, ci, U, c) ==
    IF Fmt[f].yuv /\ IsIctcp(ci)
    THEN LET v == FromCodes(f, ci, c)
             lms == Apply(IctcpToLms[IctcpKind(ci)], v)
             lin == Dec3(IctcpKind(ci), U, <<IWiden(lms[1], EpsEnc), IWiden(lms[2], EpsEnc), IWiden(lms[3], EpsEnc)>>)
         IN  IF lin = Wild THEN Wild ELSE
             LET rgb == ApplyLin(XyzToRgb[ci.p], ApplyLin(LmsToXyz, lin))
             (* the encoding of the image can't represent colors outside of its gamut *)
             IN  IF InGamut(ci.t, U, rgb) THEN Clamped(ci.t, U, rgb) ELSE Wild
    ELSE LET e == Encoded(f, ci, c) IN Dec3(ci.t, U, <<IWiden(e[1], EpsEnc), IWiden(e[2], EpsEnc), IWiden(e[3], EpsEnc)>>)

(* Encoded components in the color of the destination *)
ToDest(df, dci, U, lin) ==
    IF Fmt[df].yuv /\ IsIctcp(dci)
    THEN LET lms == ApplyLin(XyzToLms, ApplyLin(RgbToXyz[dci.p], lin))
             e == Enc3(IctcpKind(dci), U, lms)
         IN  IF e = Wild THEN Wild ELSE Apply(LmsToIctcp[IctcpKind(dci)], e)
    ELSE LET e == Enc3(dci.t, U, lin)
         IN  IF e = Wild THEN Wild ELSE IF Fmt[df].yuv THEN RgbToYuv(dci.s, e) ELSE e

PixelOf(sf, sci0, df, dci0, c) ==
    LET (* the YUV part of a color has no meaning for a RGB format *)
        sci == IF Fmt[sf].yuv THEN sci0 ELSE [sci0 EXCEPT !.k = "RGB"]
        dci == IF Fmt[df].yuv THEN dci0 ELSE [dci0 EXCEPT !.k = "RGB"]
    IN  IF ~ThroughLight(sci, dci)
        THEN LET e == Encoded(sf, sci, c) IN IF Fmt[df].yuv THEN RgbToYuv(dci.s, e) ELSE e
        ELSE LET U == Unit(sci, dci)
                 lin == LinearOf(sf, sci, U, c)
             IN  IF lin = Wild THEN Wild
                 ELSE LET l2 == IF LightChanges(sci, dci)
                                THEN ApplyLin(XyzToRgb[dci.p], ApplyLin(RgbToXyz[sci.p], lin)) ELSE lin
                      IN  IF ~IsIctcp(dci) THEN ToDest(df, dci, U, l2)
                          ELSE IF InGamut(dci.t, U, l2) THEN ToDest(df, dci, U, Clamped(dci.t, U, l2)) ELSE Wild

Pixel(sf, sci, df, dci, c) == PixelOf(sf, sci, df, dci, NormCodes(sf, c))
=============================================================================
