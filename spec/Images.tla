------------------------------- MODULE Images -------------------------------
(***************************************************************************)
(* Life of an image: it is constructed from caller supplied memory (or     *)
(* rejected), may be cropped any number of times, and unwrapped again.     *)
(*                                                                         *)
(* The state is the stack of views onto the same memory: views[1] is the   *)
(* constructed image, every further element is a crop of the previous one. *)
(* A view is a format, a size and for every plane the region of memory it  *)
(* is in, the offset inside of that region, its length and its stride.     *)
(***************************************************************************)
EXTENDS Formats

VARIABLE views

NoViews == <<>>

View(f, w, h, pl) == [f |-> f, w |-> w, h |-> h, pl |-> pl]

---------------------------------------------------------------------------
(* Which memory is adequate for an image *)

(* A plane which doesn't contain any sample (an odd sized, subsampled image *)
(* of a single column or row)                                               *)
PlaneEmpty(f, p, w, h) == RowBytes(f, p, w) = 0 \/ Rows(f, p, h) = 0

StrideOk(f, p, w, st) == st >= RowBytes(f, p, w)
LenOk(f, p, w, h, st, len) == len >= MinLen(f, p, w, h, st)
(* Bytes which are certainly required, deviation: a plane without samples   *)
(* may or may not be required to span its rows                              *)
LenNeeded(f, p, w, h, st) == IF PlaneEmpty(f, p, w, h) THEN 0 ELSE MinLen(f, p, w, h, st)

Adequate(f, w, h, pl) ==
    /\ Len(pl) >= Fmt[f].np
    /\ \A p \in 1..Fmt[f].np : StrideOk(f, p, w, pl[p].st) /\ LenOk(f, p, w, h, pl[p].st, pl[p].len)

Inadequate(f, w, h, pl) ==
    \/ Len(pl) < Fmt[f].np
    \/ \E p \in 1..Fmt[f].np :
          ~StrideOk(f, p, w, pl[p].st) \/ pl[p].len < LenNeeded(f, p, w, h, pl[p].st)

(* The error names something that is really wrong with the supplied memory *)
TruthfulBoundsError(f, w, h, pl, e) ==
    \/ /\ e.e = "InvalidNumberOfPlanes"
       /\ Len(pl) < Fmt[f].np /\ e.min = Fmt[f].np /\ e.got = Len(pl)
    \/ /\ e.e = "InvalidStride"
       /\ e.plane + 1 \in 1..Min2(Fmt[f].np, Len(pl))
       /\ LET p == e.plane + 1 IN
             e.got = pl[p].st /\ e.min = RowBytes(f, p, w) /\ ~StrideOk(f, p, w, pl[p].st)
    \/ /\ e.e = "InvalidPlaneSize"
       /\ e.plane + 1 \in 1..Min2(Fmt[f].np, Len(pl))
       /\ LET p == e.plane + 1 IN
             /\ e.got = pl[p].len
             /\ pl[p].len < e.min
             /\ PlaneEmpty(f, p, w, h) \/ e.min = MinLen(f, p, w, h, pl[p].st)

(* Planes of an image whose memory is a single buffer of `len` bytes: one   *)
(* after the other. A plane (the last one that is reached) may be cut off   *)
(* at the end of the buffer.                                                *)
BufferPlanes(f, h, strides, len) ==
    [p \in 1..Min2(Fmt[f].np, Len(strides)) |->
        LET start == Min2(PlaneStart(f, p, h, [q \in 1..Fmt[f].np |->
                              IF q <= Len(strides) THEN strides[q] ELSE 0]), len)
        IN  [rg |-> 1, off |-> start, len |-> Min2(strides[p] * Rows(f, p, h), len - start),
             st |-> strides[p]]]

---------------------------------------------------------------------------
(* Actions *)

(* The caller supplied planes are accepted as they are *)
CanConstruct(f, w, h, pl) == w > 0 /\ h > 0 /\ ~Inadequate(f, w, h, pl)

Construct(f, w, h, pl) ==
    /\ Holds(CanConstruct(f, w, h, pl))
    /\ views' = <<View(f, w, h, pl)>>

(* or rejected, in which case there is no image *)
CanRejectConstruct(f, w, h, pl, e) ==
    \/ e.e = "InvalidDimensions" /\ (w = 0 \/ h = 0)
    \/ ~Adequate(f, w, h, pl) /\ TruthfulBoundsError(f, w, h, pl, e)

RejectConstruct(f, w, h, pl, e) ==
    /\ Holds(CanRejectConstruct(f, w, h, pl, e))
    /\ views' = NoViews

(* An image type which doesn't check anything on construction *)
ConstructRaw(f, w, h, pl) == views' = <<View(f, w, h, pl)>>

Top == views[Len(views)]

WindowFits(v, win) == win.x <= v.w /\ win.w <= v.w - win.x /\ win.y <= v.h /\ win.h <= v.h - win.y

(* Windows whose position is not aligned to the subsampling don't have a    *)
(* position in the subsampled planes                                        *)
WindowAligned(f, win) ==
    \A c \in 1..Fmt[f].nc : win.x % Fmt[f].comps[c].ssx = 0 /\ win.y % Fmt[f].comps[c].ssy = 0

(* Where the first visible byte of a plane is, relative to the parent's *)
CropOffset(f, p, win, st) ==
    (win.y \div Fmt[f].planes[p].rdiv) * st
      + ((win.x * Fmt[f].planes[p].mul) \div Fmt[f].planes[p].div) * Fmt[f].bps

(* The interleaved chroma plane and packed 4:2:2 address pairs of pixels,    *)
(* both are covered by the above since x is even                             *)

CroppedPlaneOk(v, win, p, q) ==
    LET parent == v.pl[p] IN
    /\ q.st = parent.st
    (* never more than the parent gives access to *)
    /\ q.len = 0 \/ (q.rg = parent.rg /\ q.off >= parent.off /\ q.off + q.len <= parent.off + parent.len)
    (* exactly the window *)
    /\ \/ PlaneEmpty(v.f, p, win.w, win.h)
       \/ /\ q.rg = parent.rg
          /\ q.off = parent.off + CropOffset(v.f, p, win, parent.st)
          /\ q.len >= MinLen(v.f, p, win.w, win.h, q.st)

CanCrop(win) ==
    /\ views # NoViews
    /\ ~Inadequate(Top.f, Top.w, Top.h, Top.pl)
    /\ WindowFits(Top, win)

ShowsWindow(win, pl) ==
    /\ Len(pl) = Fmt[Top.f].np
    /\ \A p \in 1..Fmt[Top.f].np : CroppedPlaneOk(Top, win, p, pl[p])

Crop(win, pl) ==
    /\ Holds(CanCrop(win))
    /\ Holds(ShowsWindow(win, pl))
    /\ views' = Append(views, View(Top.f, win.w, win.h, pl))

(* A rejected crop consumes the image *)
CanRejectCrop(win, e) ==
    /\ views # NoViews
    /\ \/ e.e = "WindowSizeOutOfBounds" /\ ~WindowFits(Top, win)
       \/ ~Adequate(Top.f, Top.w, Top.h, Top.pl) /\ TruthfulBoundsError(Top.f, Top.w, Top.h, Top.pl, e)

RejectCrop(win, e) ==
    /\ Holds(CanRejectCrop(win, e))
    /\ views' = NoViews

IntoInner ==
    /\ Len(views) > 1
    /\ views' = SubSeq(views, 1, Len(views) - 1)

---------------------------------------------------------------------------
(* Properties, over every reachable state *)

(* Every visible sample of every view is inside of the memory of the view *)
SamplesInBounds ==
    \A i \in 1..Len(views) :
        LET v == views[i] IN
        \A c \in 1..Fmt[v.f].nc :
            LET p == Fmt[v.f].comps[c].plane
                cw == CompW(v.f, c, v.w)
                ch == CompH(v.f, c, v.h)
            IN  cw > 0 /\ ch > 0 =>
                  SampleOff(v.f, c, cw - 1, ch - 1, v.pl[p].st) + Fmt[v.f].bps <= v.pl[p].len

(* The view's memory never exceeds the memory of the image it was made from *)
ViewsNest ==
    \A i \in 2..Len(views) : \A p \in 1..Fmt[views[i].f].np :
        LET a == views[i - 1].pl[p]  b == views[i].pl[p] IN
        b.len > 0 => b.off >= a.off /\ b.off + b.len <= a.off + a.len

(* Planes of an image never overlap, neither do their visible samples *)
PlanesDisjoint ==
    \A i \in 1..Len(views) : \A p, q \in 1..Fmt[views[i].f].np :
        LET a == views[i].pl[p]  b == views[i].pl[q] IN
        p < q /\ a.rg = b.rg /\ a.len > 0 /\ b.len > 0 => a.off + a.len <= b.off \/ b.off + b.len <= a.off
=============================================================================
