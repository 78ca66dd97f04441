----------------------------- MODULE GenSession -----------------------------
(* Scenarios for SessionTrace: behaviours of Session, one for every number of *)
(* a configuration of the images. Every step is an action of Session.         *)
EXTENDS Session, GenLib, Json

VARIABLES conf,  \* number of the session
          out,   \* the steps, as the harness understands them
          done

vars == <<cells, rs, hist, conf, out, done>>

NumSessions == 140 * Scale
StepsOf(i) == 4 + (i % 9)

Algs == <<"nearest", "conv-box", "conv-bilinear", "interp-bilinear", "conv-lanczos", "super">>

---------------------------------------------------------------------------
(* The images *)

AnyCI(i, k, f, t, p) ==
    IF ~Fmt[f].yuv THEN IF Chance(i, k + 1, 90) THEN RgbCI(t, p) ELSE YuvCI(t, p, "BT601", FALSE)
    ELSE IF Chance(i, k + 1, 5) THEN RgbCI(t, p)
    ELSE YuvCI(t, p, IF Chance(i, k + 2, 90) THEN Pick(i, k + 3, MatSpaces) ELSE "ICtCpHLG", Chance(i, k + 4, 50))

(* All images use the same primaries and transfer in most of the sessions *)
TransferOf(i, k) == IF i % 3 = 0 THEN Pick(i, k, <<"SRGB", "Gamma22", "Linear", "HLG">>) ELSE Pick(i, 1, <<"SRGB", "Gamma28", "SDR", "HLG">>)
PrimOf(i, k) == IF i % 6 = 0 THEN Pick(i, k, Primaries) ELSE Pick(i, 2, Primaries)

Width(i) == Pick(i, 3, <<16, 20, 32, 36, 48>>)
Height(i) == Pick(i, 4, <<4, 8>>)
YW(i) == IF Chance(i, 5, 60) THEN Width(i) ELSE Pick(i, 6, <<8, 16, 24, 40>>)
YH(i) == IF Chance(i, 5, 60) THEN Height(i) ELSE Pick(i, 7, <<4, 8, 12>>)
FmtW(i) == FormatSeq[1 + (i % 15)]
FmtX(i) == Pick(i, 8, FormatSeq)
FmtY(i) == IF Chance(i, 9, 40) THEN FmtW(i) ELSE IF Chance(i, 10, 50) THEN FmtX(i) ELSE Pick(i, 11, FormatSeq)

W0(s, i) == IF s = "Y" THEN YW(i) ELSE Width(i)
H0(s, i) == IF s = "Y" THEN YH(i) ELSE IF s \in Halves THEN Height(i) \div 2 ELSE Height(i)
F0(s, i) == CASE s = "X" -> FmtX(i) [] s = "Y" -> FmtY(i) [] OTHER -> FmtW(i)
CI0(s, i) ==
    CASE s = "X" -> AnyCI(i, 20, FmtX(i), TransferOf(i, 30), PrimOf(i, 31))
      [] s = "Y" -> IF FmtY(i) = FmtX(i) /\ Chance(i, 12, 50) THEN AnyCI(i, 20, FmtX(i), TransferOf(i, 30), PrimOf(i, 31))
                    ELSE AnyCI(i, 40, FmtY(i), TransferOf(i, 50), PrimOf(i, 51))
      (* the lower half may be looked at in another way *)
      [] s = "B" /\ Chance(i, 13, 30) -> AnyCI(i, 60, FmtW(i), TransferOf(i, 70), PrimOf(i, 71))
      [] OTHER -> AnyCI(i, 80, FmtW(i), TransferOf(i, 90), PrimOf(i, 91))

(* (only evaluated once) *)
Confs == TLCEval([i \in 1..NumSessions |-> [s \in Slots |-> [w |-> W0(s, i), h |-> H0(s, i), f |-> F0(s, i), ci |-> CI0(s, i)]]])
W_(s, i) == Confs[i][s].w
H_(s, i) == Confs[i][s].h
F_(s, i) == Confs[i][s].f
CI_(s, i) == Confs[i][s].ci

(* Memory of W, X and Y: as many regions as there are planes *)
Base(s, i) ==
    LET k == CASE s = "W" -> 1000 [] s = "X" -> 2000 [] OTHER -> 3000
        img == Scattered(i, k, F_(s, i), W_(s, i), H_(s, i), CI_(s, i))
    IN  IF s = "W" /\ img.ctor = "buffer" THEN Packed(FmtW(i), Width(i), Height(i), CI_("W", i)) ELSE img
Region1(s, i) ==
    CASE s = "X" -> Len(Base("W", i).pl)
      [] s = "Y" -> Len(Base("W", i).pl) + Len(Base("X", i).pl)
      [] OTHER -> 0

MemOf(s, i) ==
    [p \in 1..Len(Base(s, i).pl) |->
        LET q == Base(s, i).pl[p] IN [len |-> q.pre + q.len + q.post, g |-> q.g, mis |-> q.mis, ps |-> Rnd(i, 100 + p, 40000)]]

PlaneOf(s, i, p) ==
    LET q == Base(IF s \in Halves THEN "W" ELSE s, i).pl[p]
        half == Rows(FmtW(i), p, Height(i) \div 2) * q.st
    IN  [rg |-> Region1(s, i) + p, st |-> q.st,
         pre |-> IF s = "B" THEN q.pre + half ELSE q.pre,
         len |-> CASE s = "T" -> MinLen(FmtW(i), p, Width(i), Height(i) \div 2, q.st)
                   [] s = "B" -> q.len - half
                   [] OTHER -> q.len]
Slot(s, i) ==
    LET b == Base(IF s \in Halves THEN "W" ELSE s, i)
        x == [fmt |-> F_(s, i), w |-> W_(s, i), h |-> H_(s, i), ci |-> CI_(s, i), ctor |-> b.ctor,
              pl |-> [p \in 1..Len(b.pl) |-> PlaneOf(s, i, p)]]
        y == IF "strides" \in DOMAIN b THEN x @@ [strides |-> b.strides] ELSE x
    IN  IF s \in Halves THEN y
        ELSE y @@ [d |-> [m |-> "gamut", lo |-> 20, hi |-> 80, amp |-> 10, s |-> Rnd(i, 110, 40000)]]

---------------------------------------------------------------------------
(* Windows: one crop, or several nested ones *)

Win(x, y, w, h) == [x |-> x, y |-> y, w |-> w, h |-> h]
Place(s, w, i) ==
    LET W == W_(s, i)  H == H_(s, i) IN
    Win(IF w \in {"R", "UR", "DR"} THEN W \div 2 ELSE 0, IF w \in {"D", "DL", "DR"} THEN H \div 2 ELSE 0,
        IF Cols(s, w) = 2 THEN W ELSE W \div 2, IF s \in Halves \/ RowsOf(s, w) = 2 THEN H ELSE H \div 2)
Crops(s, w, i, k) ==
    LET W == W_(s, i)  H == H_(s, i)  p == Place(s, w, i) IN
    CASE w = "all" /\ Chance(i, k, 70) -> <<>>
      [] Chance(i, k + 1, 60) -> <<p>>
      (* first in one direction, then the other *)
      [] Chance(i, k + 2, 50) -> <<Win(p.x, 0, p.w, H), Win(0, p.y, p.w, p.h)>>
      [] OTHER -> <<Win(0, p.y, W, p.h), Win(p.x, 0, p.w, p.h), Win(0, 0, p.w, p.h)>>
Outside(s, w, i, k) ==
    LET p == Place(s, w, i) IN Append(Crops(s, w, i, k), Pick(i, k + 3, <<Win(2, 0, p.w, p.h), Win(0, 2, p.w, p.h), Win(0, 0, p.w + 1, p.h), Win(2000000000, 0, 2, 2)>>))

---------------------------------------------------------------------------
(* Step number j of session i *)

SlotSeq == <<"W", "W", "T", "B", "X", "X", "Y", "Y">>
WinSeq(s) == IF s \in Halves THEN <<"all", "L", "R">> ELSE <<"all", "all", "L", "R", "U", "D", "UL", "UR", "DL", "DR">>

PixelSize(s, w, i) == <<Place(s, w, i).w, Place(s, w, i).h>>
Resizes == Cardinality({j \in 1..Len(hist) : hist[j].op = "resize"})

Params(i, j) ==
    LET k == 4000 + 200 * j
        s == TLCEval(Pick(i, k, SlotSeq))
        ds == SelectSeq(SlotSeq, LAMBDA x : Apart(s, x))
        (* resizes and copies need the same format *)
        same == SelectSeq(ds, LAMBDA x : F_(x, i) = F_(s, i))
        kind0 == Pick(i, k + 1, <<"convert", "convert", "convert", "copy", "resize", "resize", "fill", "clone">>)
        kind == IF (kind0 = "resize" /\ Resizes >= 4) \/ (kind0 \in {"copy", "resize"} /\ same = <<>> /\ Chance(i, k + 9, 80)) THEN "convert" ELSE kind0
        d == IF kind \in {"copy", "resize"} /\ same # <<>> /\ Chance(i, k + 2, 90) THEN Pick(i, k + 3, same) ELSE Pick(i, k + 3, ds)
        (* windows for which there is one of the same size *)
        fits == TLCEval(SelectSeq(WinSeq(s), LAMBDA v : \E w \in WinsOf(d) : PixelSize(s, v, i) = PixelSize(d, w, i)))
        sw == IF fits # <<>> /\ Chance(i, k + 33, 90) THEN Pick(i, k + 4, fits) ELSE Pick(i, k + 4, WinSeq(s))
        fit == SelectSeq(WinSeq(d), LAMBDA w : PixelSize(d, w, i) = PixelSize(s, sw, i))
        dw == IF kind # "resize" /\ fit # <<>> /\ Chance(i, k + 5, 95) THEN Pick(i, k + 6, fit) ELSE Pick(i, k + 6, WinSeq(d))
        oob == IF kind \in {"convert", "copy", "resize"} THEN Pick(i, k + 7, <<"", "", "", "", "", "", "", "", "", "", "", "", "s", "d">>) ELSE ""
    IN  [op |-> kind, s |-> s, sw |-> sw, d |-> d, dw |-> dw, oob |-> oob, r |-> Range(i, k + 8, 1, Len(rs)), k |-> k]

Missing(s, i) == Fmt[F_(s, i)].yuv /\ CI_(s, i).k = "RGB"
Same(s, d, i) == F_(s, i) = F_(d, i) /\ CI_(s, i) = CI_(d, i)
(* Does the library have to accept it? Only used to decide what the step means in Session *)
Succeeds(p, i) ==
    /\ p.oob = ""
    /\ p.op \in {"convert", "copy"} => PixelSize(p.s, p.sw, i) = PixelSize(p.d, p.dw, i)
    /\ p.op \in {"copy", "resize"} => F_(p.s, i) = F_(p.d, i)
    /\ p.op = "convert" => Same(p.s, p.d, i) \/ (~Missing(p.s, i) /\ ~Missing(p.d, i))

Concrete(p, i) ==
    LET src == [s |-> p.s, sc |-> IF p.oob = "s" THEN Outside(p.s, p.sw, i, p.k + 10) ELSE Crops(p.s, p.sw, i, p.k + 10)]
        dst == [d |-> p.d, dc |-> IF p.oob = "d" THEN Outside(p.d, p.dw, i, p.k + 20) ELSE Crops(p.d, p.dw, i, p.k + 20)]
    IN  CASE p.op = "convert" -> [op |-> "convert", api |-> Pick(i, p.k + 30, <<"st", "mt">>), cpus |-> Range(i, p.k + 31, 1, 5)] @@ src @@ dst
          [] p.op = "copy" -> [op |-> "copy"] @@ src @@ dst
          [] p.op = "resize" -> [op |-> "resize", r |-> p.r] @@ src @@ dst
          [] p.op = "clone" -> [op |-> "clone", r |-> p.r]
          [] p.op = "fill" -> [op |-> "fill", data |-> [m |-> "gamut", lo |-> 20, hi |-> 80, amp |-> 20, s |-> Rnd(i, p.k + 32, 40000)]] @@ dst

Init == SInit /\ conf \in 1..NumSessions /\ out = <<>> /\ done = FALSE

Step ==
    /\ Len(hist) < StepsOf(conf)
    /\ LET p == TLCEval(Params(conf, Len(hist))) IN
         /\ CASE p.op \in {"convert", "copy"} -> Transform(p.op, p.s, p.sw, p.d, p.dw, Succeeds(p, conf))
              [] p.op = "resize" -> Resize_(p.r, p.s, p.sw, p.d, p.dw, Succeeds(p, conf))
              [] p.op = "clone" -> Clone_(p.r)
              [] p.op = "fill" -> Fill_(p.d, p.dw)
         /\ out' = Append(out, Concrete(p, conf))
    /\ UNCHANGED <<conf, done>>

Scenario ==
    [op |-> "session", mem |-> MemOf("W", conf) \o MemOf("X", conf) \o MemOf("Y", conf),
     slots |-> [s \in Slots |-> Slot(s, conf)], algs |-> [a \in 1..2 |-> Pick(conf, 120 + a, Algs)],
     every |-> Pick(conf, 123, <<3, 4>>), steps |-> out]

(* complete sessions are written to the file of scenarios *)
Emit ==
    /\ Len(hist) = StepsOf(conf) /\ ~done
    /\ Serialize(ToJson(Scenario) \o "\n", OutFile, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
    /\ done' = TRUE
    /\ UNCHANGED <<cells, rs, hist, conf, out>>

Next == Step \/ Emit
Spec == Init /\ [][Next]_vars
Compact == <<conf, Len(hist), done>>
=============================================================================
