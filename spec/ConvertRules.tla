---------------------------- MODULE ConvertRules ----------------------------
(***************************************************************************)
(* When a conversion is possible, which memory it may change, which samples  *)
(* of the source decide about a sample of the destination.                   *)
(***************************************************************************)
EXTENDS ImageDesc

---------------------------------------------------------------------------
(* Preconditions *)

SizeMismatch(s, d) == s.w # d.w \/ s.h # d.h
OddSize(s, d)      == s.w % 2 = 1 \/ s.h % 2 = 1 \/ d.w % 2 = 1 \/ d.h % 2 = 1

(* Same colour: no attribute that is part of the colour differs *)
SameColor(a, b) ==
    /\ a.k = b.k /\ a.t = b.t /\ a.p = b.p
    /\ a.k = "YUV" => a.s = b.s /\ a.full = b.full

(* YUV samples can't be interpreted without knowing the YUV space *)
ColorMissing(s, sci, d, dci) ==
    /\ ~(s.f = d.f /\ SameColor(sci, dci))
    /\ \/ Fmt[s.f].yuv /\ sci.k = "RGB"
       \/ Fmt[d.f].yuv /\ dci.k = "RGB"

ViewInadequate(v) == Inadequate(v.f, v.w, v.h, v.pl)
ViewAdequate(v)   == Adequate(v.f, v.w, v.h, v.pl)

MustFail(s, sci, d, dci) ==
    SizeMismatch(s, d) \/ OddSize(s, d) \/ ColorMissing(s, sci, d, dci) \/ ViewInadequate(s) \/ ViewInadequate(d)

MayFailWith(s, sci, d, dci, e) ==
    \/ e.e = "MismatchedImageSize" /\ SizeMismatch(s, d)
    \/ e.e = "OddImageDimensions" /\ OddSize(s, d)
    \/ e.e = "InvalidColorInfo" /\ ColorMissing(s, sci, d, dci)
    \/ ~ViewAdequate(s) /\ TruthfulBoundsError(s.f, s.w, s.h, s.pl, e)
    \/ ~ViewAdequate(d) /\ TruthfulBoundsError(d.f, d.w, d.h, d.pl, e)

(* The copying between images of the same format, whatever their colour is *)
CopyMustFail(s, d) == SizeMismatch(s, d) \/ OddSize(s, d) \/ ViewInadequate(s) \/ ViewInadequate(d)

---------------------------------------------------------------------------
(* Effect *)

(* The samples of the destination get new values, which are whatever the    *)
(* colour conversion says (modules Color and Nonlinear). Nothing else is     *)
(* touched.                                                                  *)
ConfinedTo(d, before, after) ==
    /\ Len(after) = Len(before)
    /\ \A r \in 1..Len(before) :
          /\ Len(after[r]) = Len(before[r])
          /\ \A i \in 1..Len(before[r]) : before[r][i] = after[r][i] \/ Visible(d, r, i - 1)

---------------------------------------------------------------------------
(* Dependencies between samples. A sample covers ssx * ssy pixels.           *)

HasAlpha(f) == Fmt[f].nc = 4
IsAlpha(f, c) == c = 4

Overlap(a0, an, b0, bn) == a0 < b0 + bn /\ b0 < a0 + an

(* May the sample (dc, dx, dy) of an image of format df depend on the sample *)
(* (sc, sx, sy) of an image of format sf?                                    *)
DependsOn(df, dc, dx, dy, sf, sc, sx, sy, samecolor) ==
    LET a == Fmt[df].comps[dc]  b == Fmt[sf].comps[sc] IN
    /\ Overlap(dx * a.ssx, a.ssx, sx * b.ssx, b.ssx)
    /\ Overlap(dy * a.ssy, a.ssy, sy * b.ssy, b.ssy)
    /\ IsAlpha(df, dc) <=> IsAlpha(sf, sc)
    (* components are only mixed by a change of the colour *)
    /\ samecolor /\ Fmt[df].yuv = Fmt[sf].yuv /\ ~Fmt[sf].yuv => dc = sc
=============================================================================
