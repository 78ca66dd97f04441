------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* The pixel formats of ezk-image, from first principles: which samples an *)
(* image of a format consists of, and at which byte of which plane each of *)
(* them lives.  Everything else (plane sizes, strides, cropping, what a    *)
(* conversion may read and write) is derived from this table.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* A component: the (1-based) plane it lives in, the index of its first     *)
(* sample inside of a row, the distance between neighbouring samples of a   *)
(* row, and its horizontal and vertical subsampling.                        *)
Cmp(plane, first, step, ssx, ssy) ==
    [plane |-> plane, first |-> first, step |-> step, ssx |-> ssx, ssy |-> ssy]

Planar(ssx, ssy) == <<Cmp(1, 0, 1, 1, 1), Cmp(2, 0, 1, ssx, ssy), Cmp(3, 0, 1, ssx, ssy)>>

(* rowmul/rowdiv: number of samples in a row of a plane in relation to the  *)
(* width of the image, rowsdiv: number of rows in relation to its height.   *)
(* For even dimensions these follow from the components (see LayoutSound),  *)
(* for odd dimensions subsampled dimensions are rounded down, except for    *)
(* the rows of interleaved planes (NV12's chroma plane, YUYV).              *)
Pl(mul, div, rdiv) == [mul |-> mul, div |-> div, rdiv |-> rdiv]

PlanarPl(ssx, ssy) == <<Pl(1, 1, 1), Pl(1, ssx, ssy), Pl(1, ssx, ssy)>>

F(yuv, depth, bps, comps, planes) ==
    [yuv |-> yuv, depth |-> depth, bps |-> bps, comps |-> comps, planes |-> planes,
     max |-> 2^depth - 1, np |-> Len(planes), nc |-> Len(comps)]

Fmt == [
    I420 |-> F(TRUE,   8, 1, Planar(2, 2), PlanarPl(2, 2)),
    I422 |-> F(TRUE,   8, 1, Planar(2, 1), PlanarPl(2, 1)),
    I444 |-> F(TRUE,   8, 1, Planar(1, 1), PlanarPl(1, 1)),
    I010 |-> F(TRUE,  10, 2, Planar(2, 2), PlanarPl(2, 2)),
    I012 |-> F(TRUE,  12, 2, Planar(2, 2), PlanarPl(2, 2)),
    I210 |-> F(TRUE,  10, 2, Planar(2, 1), PlanarPl(2, 1)),
    I212 |-> F(TRUE,  12, 2, Planar(2, 1), PlanarPl(2, 1)),
    I410 |-> F(TRUE,  10, 2, Planar(1, 1), PlanarPl(1, 1)),
    I412 |-> F(TRUE,  12, 2, Planar(1, 1), PlanarPl(1, 1)),
    NV12 |-> F(TRUE,   8, 1, <<Cmp(1, 0, 1, 1, 1), Cmp(2, 0, 2, 2, 2), Cmp(2, 1, 2, 2, 2)>>,
                             <<Pl(1, 1, 1), Pl(1, 1, 2)>>),
    YUYV |-> F(TRUE,   8, 1, <<Cmp(1, 0, 2, 1, 1), Cmp(1, 1, 4, 2, 1), Cmp(1, 3, 4, 2, 1)>>,
                             <<Pl(2, 1, 1)>>),
    RGBA |-> F(FALSE,  8, 1, [i \in 1..4 |-> Cmp(1, i - 1, 4, 1, 1)], <<Pl(4, 1, 1)>>),
    BGRA |-> F(FALSE,  8, 1, <<Cmp(1, 2, 4, 1, 1), Cmp(1, 1, 4, 1, 1), Cmp(1, 0, 4, 1, 1),
                               Cmp(1, 3, 4, 1, 1)>>, <<Pl(4, 1, 1)>>),
    RGB  |-> F(FALSE,  8, 1, [i \in 1..3 |-> Cmp(1, i - 1, 3, 1, 1)], <<Pl(3, 1, 1)>>),
    BGR  |-> F(FALSE,  8, 1, <<Cmp(1, 2, 3, 1, 1), Cmp(1, 1, 3, 1, 1), Cmp(1, 0, 3, 1, 1)>>,
                             <<Pl(3, 1, 1)>>)
]

FormatSeq == <<"I420", "I422", "I444", "I010", "I012", "I210", "I212", "I410", "I412",
               "NV12", "YUYV", "RGBA", "BGRA", "RGB", "BGR">>
Formats    == {FormatSeq[i] : i \in 1..Len(FormatSeq)}
YuvFormats == {f \in Formats : Fmt[f].yuv}
RgbFormats == Formats \ YuvFormats

(* A state predicate used in an action. (Equivalent to p, but TLC doesn't    *)
(* enumerate the ways in which p can be true.)                               *)
Holds(p) == IF p THEN TRUE ELSE FALSE

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Max3(a, b, c) == Max2(a, Max2(b, c))
Min3(a, b, c) == Min2(a, Min2(b, c))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

---------------------------------------------------------------------------
(* Sizes *)

CompW(f, c, w) == w \div Fmt[f].comps[c].ssx
CompH(f, c, h) == h \div Fmt[f].comps[c].ssy

RowBytes(f, p, w) == ((w * Fmt[f].planes[p].mul) \div Fmt[f].planes[p].div) * Fmt[f].bps
Rows(f, p, h)     == h \div Fmt[f].planes[p].rdiv

(* The bytes a plane must have to contain every visible sample: the last    *)
(* row doesn't have to be followed by padding                               *)
MinLen(f, p, w, h, stride) ==
    IF Rows(f, p, h) = 0 THEN 0 ELSE stride * (Rows(f, p, h) - 1) + RowBytes(f, p, w)

PackedStrides(f, w) == [p \in 1..Fmt[f].np |-> RowBytes(f, p, w)]
BufferSize(f, w, h) == SumTo([p \in 1..Fmt[f].np |-> RowBytes(f, p, w) * Rows(f, p, h)], Fmt[f].np)

(* Start of a plane when all planes are stored in one buffer, one after the *)
(* other, each occupying rows * stride bytes                                *)
PlaneStart(f, p, h, strides) ==
    SumTo([q \in 1..Fmt[f].np |-> strides[q] * Rows(f, q, h)], p - 1)

(* Offset of a sample from the start of its plane *)
SampleOff(f, c, cx, cy, stride) ==
    LET co == Fmt[f].comps[c] IN cy * stride + (co.first + cx * co.step) * Fmt[f].bps

(* Value of a sample, given the bytes of a plane in which it is at `off`    *)
(* (0-based). Samples of more than 8 bits are stored in native endianness,  *)
(* little endian on everything this specification is checked on.            *)
SampleVal(f, bytes, off) ==
    IF Fmt[f].bps = 1 THEN bytes[off + 1] ELSE bytes[off + 1] + 256 * bytes[off + 2]

---------------------------------------------------------------------------
(* Soundness of the table itself, checked by MCFormats.                     *)

Dims(f, n) == {<<w, h>> \in (1..n) \X (1..n) :
                 /\ \A c \in 1..Fmt[f].nc : w % Fmt[f].comps[c].ssx = 0
                 /\ \A c \in 1..Fmt[f].nc : h % Fmt[f].comps[c].ssy = 0}

CompBytes(f, c, w, h, strides) ==
    UNION {{<<Fmt[f].comps[c].plane, SampleOff(f, c, cx, cy, strides[Fmt[f].comps[c].plane]) + b>> :
              b \in 0..(Fmt[f].bps - 1)} :
             cx \in 0..(CompW(f, c, w) - 1), cy \in 0..(CompH(f, c, h) - 1)}

VisibleBytes(f, w, h, strides) ==
    UNION {{<<p, y * strides[p] + b>> : y \in 0..(Rows(f, p, h) - 1), b \in 0..(RowBytes(f, p, w) - 1)} :
             p \in 1..Fmt[f].np}

(* The samples partition the visible bytes, and the last one ends at MinLen *)
LayoutSound(f, w, h, pad) ==
    LET st == [p \in 1..Fmt[f].np |-> RowBytes(f, p, w) + pad]
        cb == [c \in 1..Fmt[f].nc |-> CompBytes(f, c, w, h, st)]
    IN  /\ VisibleBytes(f, w, h, st) = UNION {cb[c] : c \in 1..Fmt[f].nc}
        /\ \A c \in 1..Fmt[f].nc :
              Cardinality(cb[c]) = CompW(f, c, w) * CompH(f, c, h) * Fmt[f].bps
        /\ \A c, d \in 1..Fmt[f].nc : c # d => cb[c] \cap cb[d] = {}
        /\ \A p \in 1..Fmt[f].np :
              /\ \A v \in VisibleBytes(f, w, h, st) : v[1] = p => v[2] < MinLen(f, p, w, h, st[p])
              /\ <<p, MinLen(f, p, w, h, st[p]) - 1>> \in VisibleBytes(f, w, h, st)
        /\ pad = 0 => BufferSize(f, w, h) = Cardinality(VisibleBytes(f, w, h, st))
=============================================================================
