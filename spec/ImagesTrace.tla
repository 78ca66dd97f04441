----------------------------- MODULE ImagesTrace -----------------------------
(* Checks recorded constructions, crops and size calculations against Images *)
EXTENDS ImageDesc, TraceLib

VARIABLE k   \* next step of the event (an event of a crop has several steps)

ASSUME TableSound == \A f \in Formats : \A d \in Dims(f, 4) : LayoutSound(f, d[1], d[2], 1)

(* What is visible through the constructed image. The planes of a single     *)
(* buffer may be longer or shorter than their rows * stride, as long as they *)
(* contain every row and don't overlap. Unused planes may be dropped.        *)
ShowsPlanes(img, v, pl) ==
    /\ Len(pl) >= Fmt[v.f].np /\ Len(pl) <= Len(v.pl)
    /\ \A p \in 1..Fmt[v.f].np :
          LET a == pl[p]  b == v.pl[p] IN
          /\ a.st = b.st
          /\ IF img.ctor = "buffer"
             THEN \/ PlaneEmpty(v.f, p, v.w, v.h)
                  \/ /\ a.rg = 1 /\ a.off = b.off
                     /\ a.len >= MinLen(v.f, p, v.w, v.h, a.st)
                     /\ a.off + a.len <= img.pl[1].pre + img.pl[1].len
             ELSE a.len = b.len /\ (a.len > 0 => a.rg = b.rg /\ a.off = b.off)
    /\ \A p, q \in 1..Fmt[v.f].np :
          p < q /\ pl[p].rg = pl[q].rg /\ pl[p].len > 0 /\ pl[q].len > 0
             => pl[p].off + pl[p].len <= pl[q].off \/ pl[q].off + pl[q].len <= pl[p].off

ConstructStep(img, r) ==
    LET pl == Supplied(img) IN
    IF IsOk(r)
    THEN /\ IF img.ctor = "raw" THEN ConstructRaw(img.fmt, img.w, img.h, pl)
            ELSE Do("accepted inadequate memory", CanConstruct(img.fmt, img.w, img.h, pl),
                    Construct(img.fmt, img.w, img.h, pl))
         /\ Chk("dimensions", r.w = img.w /\ r.h = img.h /\ r.fmt = img.fmt)
         /\ Chk("planes", img.ctor = "raw" \/ ShowsPlanes(img, views'[1], r.pl))
         /\ Chk("planes differ from mutable planes", r.plm = r.pl)
         /\ Chk("bounds check of an inadequate image",
                Has(r, "bc") /\ IsOk(r.bc) => ~Inadequate(img.fmt, img.w, img.h, pl))
         /\ Chk("bounds check of an adequate image",
                Has(r, "bc") /\ IsErr(r.bc) =>
                   /\ ~Adequate(img.fmt, img.w, img.h, pl)
                   /\ TruthfulBoundsError(img.fmt, img.w, img.h, pl, r.bc))
    ELSE Do("rejection", IsErr(r) /\ img.ctor # "raw" /\ CanRejectConstruct(img.fmt, img.w, img.h, pl, r),
            RejectConstruct(img.fmt, img.w, img.h, pl, r))

EvConstruct ==
    LET e == Trace[l] IN
    /\ e.op = "construct"
    /\ IF Has(e, "huge")
       THEN Chk("accepted inadequate memory", IF e.img.ctor = "raw" THEN ~(Has(e.res, "bc") /\ IsOk(e.res.bc)) ELSE ~IsOk(e.res)) /\ views' = NoViews
       ELSE ConstructStep(e.img, e.res)
    /\ Advance(l + 1) /\ k' = 1

(* The same planes, seen through another kind of reference to the image *)
SamePlanes(a, b) == IsOk(a) /\ a.pl = b.pl /\ a.w = b.w /\ a.h = b.h /\ a.fmt = b.fmt /\ a.ci = b.ci

CropStep(win, r) ==
    IF IsOk(r)
    THEN /\ Chk("accepted window", CanCrop(win))
         /\ IF WindowAligned(Top.f, win)
            THEN Do("cropped planes", ShowsWindow(win, r.pl), Crop(win, r.pl))
            ELSE views' = Append(views, View(Top.f, win.w, win.h, r.pl))
         /\ Chk("dimensions", r.w = win.w /\ r.h = win.h /\ r.fmt = Top.f /\ r.ci)
         /\ Chk("mutable planes", r.plm = r.pl)
         /\ Chk("shared reference", SamePlanes(r.by_ref, r))
         /\ Chk("exclusive reference", SamePlanes(r.by_mut, r) /\ r.by_mut.plm = r.pl)
         /\ Chk("unwrapped", r.inner)
    ELSE /\ Do("rejected window", IsErr(r) /\ CanRejectCrop(win, r), RejectCrop(win, r))
         /\ Chk("references", IsErr(r.by_ref) /\ IsErr(r.by_mut))

EvCrop ==
    LET e == Trace[l] IN
    /\ e.op = "crop"
    /\ Chk("memory was modified", e.memdiff = -1)
    /\ IF k = 1 THEN ConstructStep(e.img, e.steps[1])
       ELSE IF views = NoViews THEN UNCHANGED views   \* nothing left to crop
       ELSE CropStep(e.wins[k - 1], e.steps[k])
    /\ IF k = Len(e.steps) THEN Advance(l + 1) /\ k' = 1 ELSE l' = l /\ k' = k + 1

Disjoint(pl) == \A p, q \in 1..Len(pl) :
    p < q /\ pl[p].len > 0 /\ pl[q].len > 0 => pl[p].off + pl[p].len <= pl[q].off \/ pl[q].off + pl[q].len <= pl[p].off

EvLayout ==
    LET e == Trace[l]
        f == e.fmt  w == e.w  h == e.h  np == Fmt[f].np
        zero == w = 0 \/ h = 0
    IN
    /\ e.op = "layout"
    /\ Chk("no panic", IsOk(e.res))
    /\ Chk("buffer_size", e.res.size = BufferSize(f, w, h))
    /\ Chk("packed_strides", e.res.strides = PackedStrides(f, w))
    /\ Chk("bits_per_component", e.res.bits = Fmt[f].depth)
    /\ Chk("blank image", IsOk(e.blank))
    /\ Chk("blank meta", e.blank.meta)
    /\ Chk("blank is zero", e.blank.zero)
    /\ Chk("blank planes", zero \/
            LET pl == e.blank.pl  st == PackedStrides(f, w) IN
            /\ Len(pl) = np
            /\ \A p \in 1..np :
                  /\ pl[p].st = st[p]
                  /\ PlaneEmpty(f, p, w, h) \/
                       /\ pl[p].off = PlaneStart(f, p, h, st)
                       /\ pl[p].len >= MinLen(f, p, w, h, st[p])
                       /\ pl[p].off + pl[p].len <= BufferSize(f, w, h)
            /\ Disjoint(pl)
            /\ e.blank.plm = pl
            /\ IsOk(e.blank.bc))
    /\ Chk("infer", zero \/
            LET pl == e.infer.pl  st == IF e.nostr THEN PackedStrides(f, w) ELSE e.strides IN
            /\ IsOk(e.infer)
            /\ Len(pl) = np
            /\ \A p \in 1..np :
                  PlaneEmpty(f, p, w, h) \/
                       /\ pl[p].off = PlaneStart(f, p, h, st)
                       /\ pl[p].len >= MinLen(f, p, w, h, st[p])
                       /\ pl[p].off + pl[p].len <= e.len
            /\ Disjoint(pl)
            /\ e.infer.plm = pl /\ e.infer.pld = pl /\ e.infer.plw = pl)
    (* a packed image of the calculated size can be constructed *)
    /\ Chk("size suffices", zero \/
            Adequate(f, w, h, BufferPlanes(f, h, e.res.strides, e.res.size)))
    /\ Advance(l + 1) /\ k' = 1 /\ UNCHANGED views

EvInfo ==
    LET e == Trace[l] IN
    /\ e.op = "info"
    /\ Chk("variants", Len(e.variants) = Cardinality(Formats) /\ {e.variants[i] : i \in 1..Len(e.variants)} = Formats)
    /\ Advance(l + 1) /\ k' = 1 /\ UNCHANGED views

Init == l = 1 /\ k = 1 /\ views = NoViews
Next == l <= N /\ NoCrash /\ (EvConstruct \/ EvCrop \/ EvLayout \/ EvInfo)
Spec == Init /\ [][Next]_<<views, l, k>>

TraceAccepted == AllExplained

(* Views of images which are not checked on construction may be too small, *)
(* and windows without a position in the subsampled planes have no meaning  *)
JudgedOnly == l <= N /\ Trace[l].op = "crop" /\ Trace[l].img.ctor # "raw" /\
              \A i \in 1..Len(Trace[l].wins) : WindowAligned(Trace[l].img.fmt, Trace[l].wins[i])
InvSamplesInBounds == JudgedOnly => SamplesInBounds
InvViewsNest       == ViewsNest
=============================================================================
