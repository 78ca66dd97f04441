------------------------------ MODULE MCImages ------------------------------
(* Exhaustive exploration of Images for small images: every format, every   *)
(* size up to N, planes which are too small, exact or too large by some     *)
(* bytes, every window, up to D nested crops.                               *)
EXTENDS Images, TLC

CONSTANTS N, D, F0

VARIABLES wins   \* the windows applied so far

Formats0 == IF F0 = "all" THEN Formats ELSE {F0}

StrideDelta == {-1, 0, 2}
LenDelta    == {-1, 0, 1}

(* planes with slack `ds` in the stride and `dl` in the length, only plane `bad` *)
(* may be too small                                                              *)
MkPlanes(f, w, h, ds, dl, bad) ==
    [p \in 1..Fmt[f].np |->
        LET s0 == IF p = bad \/ ds >= 0 THEN ds ELSE 0
            st == Max2(RowBytes(f, p, w) + s0, 0)
            l0 == IF p = bad \/ dl >= 0 THEN dl ELSE 0
        IN  [rg |-> p, off |-> 3, st |-> st, len |-> Max2(MinLen(f, p, w, h, st) + l0, 0)]]

Errors(pl) ==
    {[e |-> "InvalidDimensions"], [e |-> "WindowSizeOutOfBounds"]}
      \cup {[e |-> k, plane |-> p - 1, min |-> m, got |-> g] :
               k \in {"InvalidStride", "InvalidPlaneSize", "InvalidNumberOfPlanes"}, p \in 1..Len(pl),
               m \in 0..1, g \in 0..1}

Init == views = NoViews /\ wins = <<>>

NewPlanes ==
    /\ views = NoViews
    /\ \E f \in Formats0, w \in 0..N, h \in 0..N, ds \in StrideDelta, dl \in LenDelta :
       \E bad \in 1..Fmt[f].np, n \in (Fmt[f].np - 1)..Fmt[f].np :
          LET pl == SubSeq(MkPlanes(f, w, h, ds, dl, bad), 1, n) IN Construct(f, w, h, pl)
    /\ UNCHANGED wins

NewBuffer ==
    /\ views = NoViews
    /\ \E f \in Formats0, w \in 0..N, h \in 0..N, ds \in StrideDelta, cut \in 0..3 :
          LET st == [p \in 1..Fmt[f].np |-> Max2(RowBytes(f, p, w) + ds, 0)]
              len == Max2(PlaneStart(f, Fmt[f].np, h, st)
                            + MinLen(f, Fmt[f].np, w, h, st[Fmt[f].np]) + 1 - cut, 0)
          IN  Construct(f, w, h, BufferPlanes(f, h, st, len))
    /\ UNCHANGED wins

(* Both the shortest and the longest allowed slices *)
CropPlanes(v, win, long) ==
    [p \in 1..Fmt[v.f].np |->
        LET off == CropOffset(v.f, p, win, v.pl[p].st)
        IN  IF PlaneEmpty(v.f, p, win.w, win.h)
            THEN [rg |-> v.pl[p].rg, off |-> v.pl[p].off, len |-> 0, st |-> v.pl[p].st]
            ELSE [rg |-> v.pl[p].rg, off |-> v.pl[p].off + off, st |-> v.pl[p].st,
                  len |-> IF long THEN v.pl[p].len - off
                          ELSE MinLen(v.f, p, win.w, win.h, v.pl[p].st)]]

DoCrop ==
    /\ views # NoViews
    /\ Len(views) <= D
    /\ \E x, y, w, h \in 0..(N + 1), long \in BOOLEAN :
          LET win == [x |-> x, y |-> y, w |-> w, h |-> h] IN
          /\ WindowAligned(Top.f, win)
          /\ WindowFits(Top, win)
          /\ Crop(win, CropPlanes(Top, win, long))
          /\ wins' = Append(wins, win)

(* A window that doesn't fit can't be applied, whatever is returned for its planes *)
NoBadCrop ==
    views # NoViews =>
      \A x, y, w, h \in {0, 1, 2, N, N + 1} :
        LET win == [x |-> x, y |-> y, w |-> w, h |-> h] IN
        ~WindowFits(Top, win) => x + w > Top.w \/ y + h > Top.h

Undo == IntoInner /\ wins' = SubSeq(wins, 1, Len(wins) - 1)

Next == NewPlanes \/ NewBuffer \/ DoCrop \/ Undo

Spec == Init /\ [][Next]_<<views, wins>>

(* A sample of the innermost view is the sample of the constructed image at  *)
(* the position shifted by all windows                                       *)
CropExact ==
    views # NoViews =>
      LET v == Top
          r == views[1]
          X == SumTo([i \in 1..Len(wins) |-> wins[i].x], Len(wins))
          Y == SumTo([i \in 1..Len(wins) |-> wins[i].y], Len(wins))
      IN  \A c \in 1..Fmt[v.f].nc :
            LET co == Fmt[v.f].comps[c]  p == co.plane IN
            \A cx \in 0..(CompW(v.f, c, v.w) - 1), cy \in 0..(CompH(v.f, c, v.h) - 1) :
              /\ v.pl[p].off + SampleOff(v.f, c, cx, cy, v.pl[p].st)
                   = r.pl[p].off + SampleOff(v.f, c, cx + X \div co.ssx, cy + Y \div co.ssy, r.pl[p].st)
              /\ cx + X \div co.ssx < CompW(r.f, c, r.w) /\ cy + Y \div co.ssy < CompH(r.f, c, r.h)

TableSound ==
    \A f \in Formats0 : \A d \in Dims(f, N) : \A pad \in {0, 1, 5} : LayoutSound(f, d[1], d[2], pad)
ASSUME TableSound
=============================================================================
