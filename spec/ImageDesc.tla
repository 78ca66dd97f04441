------------------------------ MODULE ImageDesc ------------------------------
(* Meaning of the image descriptions in scenarios: which memory an image     *)
(* occupies, and which bytes of it are visible                               *)
EXTENDS Images, TLC

HasKey(r, k) == k \in DOMAIN r

(* every plane has a region of memory of its own, unless specified *)
RegionOf(img, p) == IF HasKey(img.pl[p], "rg") THEN img.pl[p].rg ELSE p

(* planes, as they were supplied to a constructor *)
Supplied(img) ==
    LET f == img.fmt
        str == IF HasKey(img, "nostr") THEN PackedStrides(f, img.w)
               ELSE IF HasKey(img, "strides") THEN img.strides
               ELSE [p \in 1..Len(img.pl) |-> img.pl[p].st]
    IN  IF img.ctor = "buffer"
        THEN [p \in 1..Len(BufferPlanes(f, img.h, str, img.pl[1].len)) |->
                LET b == BufferPlanes(f, img.h, str, img.pl[1].len)[p]
                IN  [b EXCEPT !.off = b.off + img.pl[1].pre, !.rg = RegionOf(img, 1)]]
        ELSE [p \in 1..Min2(Len(str), Len(img.pl)) |->
                [rg |-> RegionOf(img, p), off |-> img.pl[p].pre, len |-> img.pl[p].len, st |-> str[p]]]


RECURSIVE Cropping(_, _)
Cropping(v, wins) ==
    IF wins = <<>> THEN v ELSE
    LET win == Head(wins) IN
    Cropping(View(v.f, win.w, win.h,
                  [p \in 1..Len(v.pl) |->
                      LET q == v.pl[p]
                          off == IF p <= Fmt[v.f].np THEN CropOffset(v.f, p, win, q.st) ELSE 0
                      IN  [q EXCEPT !.off = q.off + Min2(off, q.len), !.len = q.len - Min2(off, q.len)]]),
             Tail(wins))

(* The image which takes part in the operation: constructed, then cropped *)
ViewOf(img) ==
    Cropping(View(img.fmt, img.w, img.h, Supplied(img)), IF HasKey(img, "crop") THEN img.crop ELSE <<>>)

(* Is the byte at offset `o` of region `r` part of a visible sample *)
Visible(v, r, o) ==
    \E p \in 1..Fmt[v.f].np :
        LET q == v.pl[p]  rel == o - q.off IN
        /\ q.rg = r
        /\ rel >= 0
        /\ ~PlaneEmpty(v.f, p, v.w, v.h)
        /\ rel \div q.st < Rows(v.f, p, v.h)
        /\ rel % q.st < RowBytes(v.f, p, v.w)

(* Value of a sample, given the contents of all regions *)
ValueIn(v, mem, c, cx, cy) ==
    LET q == v.pl[Fmt[v.f].comps[c].plane]
    IN  SampleVal(v.f, mem[q.rg], q.off + SampleOff(v.f, c, cx, cy, q.st))

(* Recorded values of a component are in rows *)
At(v, vals, c, cx, cy) == vals[c][1 + cy * CompW(v.f, c, v.w) + cx]
=============================================================================
