------------------------------- MODULE MCColor -------------------------------
(***************************************************************************)
(* The oracle of Color satisfies what the properties say about colors: the   *)
(* constants are those of the standards, neutral colors stay neutral,        *)
(* conversions are inverted by the conversion in the other direction, codes   *)
(* survive. Every state is a conversion of one pixel from a color to another. *)
(***************************************************************************)
EXTENDS Color, FiniteSets

Near(a, b, e) == IF FAbs(a - b) <= e THEN TRUE ELSE PrintT(<<"near", a, b>>) /\ FALSE
Cell(a, b, r, c) == Mul(a[r][1], b[1][c]) + Mul(a[r][2], b[2][c]) + Mul(a[r][3], b[3][c])
IsInverse(a, b, e) == \A r, c \in 1..3 : Near(Cell(a, b, r, c), IF r = c THEN One ELSE 0, e)
Product(a, b) == [r \in 1..3 |-> [c \in 1..3 |-> Cell(a, b, r, c)]]

(* chromaticities in 1/10000: SMPTE 240M, BT.709, BT.2020 *)
Chroma == [ST240 |-> <<<<6300, 3400>>, <<3100, 5950>>, <<1550, 700>>>>,
           BT709 |-> <<<<6400, 3300>>, <<3000, 6000>>, <<1500, 600>>>>,
           BT2020 |-> <<<<7080, 2920>>, <<1700, 7970>>, <<1310, 460>>>>]
(* D65 *)
White == <<Quo(3127, 3290), One, Quo(10000 - 3127 - 3290, 3290)>>

PrimariesSound == \A p \in AllPrimaries :
    /\ \A r \in 1..3 : Near(RgbToXyz[p][r][1] + RgbToXyz[p][r][2] + RgbToXyz[p][r][3], White[r], 8)
    /\ \A c \in 1..3 :
          LET sum == RgbToXyz[p][1][c] + RgbToXyz[p][2][c] + RgbToXyz[p][3][c] IN
          /\ Near(RgbToXyz[p][1][c], Mul(sum, Quo(Chroma[p][c][1], 10000)), 8)
          /\ Near(RgbToXyz[p][2][c], Mul(sum, Quo(Chroma[p][c][2], 10000)), 8)
    /\ IsInverse(RgbToXyz[p], XyzToRgb[p], 32)

(* BT.2100 table 5: the matrices are given in 1/4096 *)
Bt2100Lms == <<<<1688, 2146, 262>>, <<683, 2951, 462>>, <<99, 309, 3688>>>>
Bt2100Ictcp == [PQ |-> <<<<2048, 2048, 0>>, <<6610, -13613, 7003>>, <<17933, -17390, -543>>>>,
                HLG |-> <<<<2048, 2048, 0>>, <<3625, -7465, 3840>>, <<9500, -9212, -288>>>>]
IctcpSound ==
    /\ IsInverse(XyzToLms, LmsToXyz, 32)
    /\ LET m == Product(XyzToLms, RgbToXyz["BT2020"]) IN
       \A r, c \in 1..3 : Near(m[r][c], Bt2100Lms[r][c] * 4096, 9000)
    /\ \A k \in {"PQ", "HLG"} :
          /\ \A r, c \in 1..3 : LmsToIctcp[k][r][c] = Bt2100Ictcp[k][r][c] * 4096
          /\ IsInverse(LmsToIctcp[k], IctcpToLms[k], 32)

ASSUME PrimariesSound
ASSUME IctcpSound
ASSUME \A s \in MatrixSpaces : Near(LumaCoeff[s][1] + LumaCoeff[s][2] + LumaCoeff[s][3], One, 3)

---------------------------------------------------------------------------
CONSTANTS Codes

VARIABLES sf, df, sci, dci, c
vars == <<sf, df, sci, dci, c>>

Transfers == {"Linear", "Gamma22", "Gamma28", "SRGB", "SDR", "PQ", "HLG"}
Rgb(t, p) == [k |-> "RGB", t |-> t, p |-> p]
Yuv(t, p, s, full) == [k |-> "YUV", t |-> t, p |-> p, s |-> s, full |-> full]
Spaces == MatrixSpaces \cup {"ICtCpPQ", "ICtCpHLG"}

(* R, G, B codes of the source, 8 bit. The codes are chosen by the transition, *)
(* so that several workers explore                                            *)
Init ==
    /\ sf = "RGB" /\ c = <<0, 0, 0>>
    /\ \E t \in Transfers, p \in AllPrimaries : sci = Rgb(t, p)
    /\ \/ df = "RGB" /\ \E t \in Transfers, p \in AllPrimaries : dci = Rgb(t, p)
       \/ df \in {"I444", "I412"} /\ \E s \in Spaces, full \in BOOLEAN : dci = Yuv(sci.t, sci.p, s, full)
Next == c = <<0, 0, 0>> /\ c' \in Codes \X Codes \X Codes /\ UNCHANGED <<sf, df, sci, dci>>
Spec == Init /\ [][Next]_vars

D == Pixel(sf, sci, df, dci, c)
Meets(a, x, e) == a[1] - e <= x /\ x <= a[2] + e
Gray == c[1] = c[2] /\ c[2] = c[3]

(* Neutral colors stay neutral: all components (or chroma 0) agree *)
NeutralStays ==
    (Gray /\ D # Wild) =>
        (* the matrix of XYZ to LMS has four decimal places *)
        LET e == IF IsIctcp(dci) THEN 4096 ELSE 64 IN
        IF Fmt[df].yuv THEN Meets(D[2], 0, e) /\ Meets(D[3], 0, e)
        ELSE \A i, j \in 1..3 : D[i][1] <= D[j][2] + 64
(* ... and a YUV matrix preserves their value *)
GrayValue == (Gray /\ Fmt[df].yuv /\ ~IsIctcp(dci)) => Meets(D[1], Norm255[c[1]], 64)

(* The code which the interval is rounded to *)
Round(a, max) == LET v == FMax(0, FMin(ToCode((a[1] \div 2) + (a[2] \div 2), max), max * 65536)) IN (v + 32768) \div 65536
Stored(i) == Round(IF Fmt[df].yuv THEN (IF i = 1 THEN LumaOut(dci.full, D[1]) ELSE ChromaOut(dci.full, D[i])) ELSE D[i], Fmt[df].max)

(* An interval must not be so wide that everything is accepted: less than one *)
(* code of an 8 bit destination, where the result is in gamut                 *)
Tight == (D # Wild /\ sci.t # "PQ" /\ dci.t # "PQ" /\ ~IsIctcp(dci)
          /\ \A i \in 1..3 : D[i][1] > One \div 32 /\ D[i][2] < One) =>
             \A i \in 1..3 : D[i][2] - D[i][1] <= One \div 255

(* The way back: the oracle of the inverse conversion, applied to the rounded *)
(* codes with 12 bits, finds the color (in 4:4:4 and for matrix spaces)        *)
BackIsIdentity ==
    (df = "I412" /\ ~IsIctcp(dci)) =>
        LET b == Pixel(df, dci, sf, sci, <<Stored(1), Stored(2), Stored(3)>>)
        IN  \A i \in 1..3 : Meets(b[i], Norm255[c[i]], One \div 512)
(* the code survives a conversion to the same matrix at 8 bit, up to one       *)
Range8 == \A i \in 1..3 : D # Wild => Stored(i) \in 0..Fmt[df].max
(* limited range: codes of RGB are within the nominal range *)
Nominal == (df = "I444" /\ ~IsIctcp(dci) /\ ~dci.full) =>
               Stored(1) \in 16..235 /\ Stored(2) \in 16..240 /\ Stored(3) \in 16..240
(* identical colors *)
SameColor == (df = "RGB" /\ sci = dci) => \A i \in 1..3 : Stored(i) = c[i]
(* to other primaries and back: the color, for what is in both gamuts *)
PrimariesBack ==
    (df = "RGB" /\ sci.t = "Linear" /\ dci.t = "Linear") =>
        LET back == Apply(XyzToRgb[sci.p], Apply(RgbToXyz[dci.p], Apply(XyzToRgb[dci.p], Apply(RgbToXyz[sci.p],
                        [i \in 1..3 |-> I(Norm255[c[i]])]))))
        IN  \A i \in 1..3 : Meets(back[i], Norm255[c[i]], 128)
=============================================================================
