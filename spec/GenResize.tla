------------------------------ MODULE GenResize ------------------------------
(* Scenarios for ResizeTrace *)
EXTENDS GenLib, Json, SequencesExt

Algs == <<"nearest", "conv-box", "conv-bilinear", "conv-hamming", "conv-catmull", "conv-mitchell", "conv-gaussian", "conv-lanczos",
          "interp-bilinear", "super", "interp-catmull", "interp-lanczos", "conv-catmull", "conv-mitchell", "conv-lanczos",
          "interp-hamming", "interp-mitchell", "interp-gaussian", "super-lanczos-1", "super-catmull-3", "super-hamming-4", "super-bilinear-8">>
Sizes == <<1, 2, 2, 3, 4, 5, 6, 8, 10, 12, 16, 17, 20, 24, 34>>
EvenSizes == <<2, 4, 6, 8, 10, 16, 20, 34>>

AnyCI(i, k, f) == IF Fmt[f].yuv THEN YuvCI(Pick(i, k, Transfers), Pick(i, k + 1, Primaries), Pick(i, k + 2, Spaces), Chance(i, k + 3, 50))
                  ELSE RgbCI(Pick(i, k, Transfers), Pick(i, k + 1, Primaries))
Data(i, k) == CASE Rnd(i, k, 10) < 5 -> [m |-> "rand", s |-> Rnd(i, k + 1, 40000)]
                [] Rnd(i, k, 10) < 8 -> [m |-> "edge", s |-> Rnd(i, k + 1, 40000)]
                [] OTHER -> [m |-> "const", v |-> [c \in 1..4 |-> Pick(i, k + 1 + c, <<0, 1, 7, 100, 128, 254, 255>>)]]

Step(i, k, r, f, sw, sh, df, dw, dh, log0) ==
    LET vast(n) == Chance(i, k + 1400 + n, 4)
        any(n, kk, ff, w, h, ci) == IF vast(n) THEN Vast(i, kk, ff, w, h, ci) ELSE AnyLayout(i, kk, ff, w, h, ci)
        log == IF vast(2) /\ log0 # "" THEN "Sv" ELSE log0
    IN
    [op |-> "resize", r |-> r, log |-> log,
     src |-> WithData(any(1, k + 1000, f, sw, sh, AnyCI(i, k + 1, f)), Data(i, k + 5)),
     dst |-> WithData(any(2, k + 1200, df, dw, dh, AnyCI(i, k + 11, df)), [m |-> "rand", s |-> Rnd(i, k + 16, 40000)])]

(* --- C18 --- *)
Single(i) ==
    LET f == FormatSeq[1 + (i % 15)]
        alg == Algs[1 + ((i \div 15) % Len(Algs))]
        odd == Chance(i, 1, 15)
        (* now and then one large extent *)
        large == Chance(i, 2000, 5)
        sz(k) == IF large /\ k = Pick(i, 2001, <<3, 6>>) THEN Pick(i, 2002, <<64, 100, 130, 256, 300>>) ELSE IF large /\ k \in {4, 8} THEN 4 ELSE IF odd THEN Pick(i, k, Sizes) ELSE Pick(i, k, EvenSizes)
        copies == Chance(i, 2, 8)
        sw == sz(3)  sh == sz(4)
        dw == IF copies \/ Chance(i, 5, 10) THEN sw ELSE sz(6)
        dh == IF copies \/ Chance(i, 7, 10) THEN sh ELSE sz(8)
        diff == Chance(i, 9, 5)
        small == dw * dh <= 300
    IN  [op |-> "resize", algs |-> <<alg>>,
         steps |-> <<Step(i, 20, 1, f, sw, sh, IF diff THEN Pick(i, 10, FormatSeq) ELSE f, dw, dh, IF small THEN "Svba" ELSE "Sv")>>]

(* --- large images with a color in every quarter, windows of the result are recorded --- *)
LargeSizes == <<<<1280, 720>>, <<640, 362>>, <<300, 1000>>, <<4098, 18>>, <<20002, 4>>, <<70004, 2>>, <<2, 70004>>, <<1026, 514>>, <<100, 100>>, <<38, 3000>>>>
Large(i) ==
    LET f == FormatSeq[1 + Rnd(i, 1, 15)]
        s == LargeSizes[1 + ((i - 1 + Seed) % Len(LargeSizes))]
        (* what is scaled in one direction only must not become too large *)
        d == Pick(i, 3, SelectSeq(LargeSizes, LAMBDA z: z[1] <= 3000000 \div s[2] /\ z[2] <= 3000000 \div s[1]))
        (* axes which are too small for two colors *)
        small(k) == Min2(s[k], d[k]) < 200
        quarter(x, y) == 1 + (IF ~small(1) /\ x >= d[1] \div 2 THEN 1 ELSE 0) + (IF ~small(2) /\ y >= d[2] \div 2 THEN 2 ELSE 0)
        same(q) == 1 + (IF small(1) THEN 0 ELSE (q - 1) % 2) + (IF small(2) THEN 0 ELSE 2 * ((q - 1) \div 2))
        data == [m |-> "quarters", w |-> s[1], h |-> s[2],
                 v |-> [c \in 1..4 |-> [q \in 1..4 |-> Pick(i, 10 * c + same(q), <<0, 1, 17, 100, 128, 200, 254, 255>>)]]]
        (* number of pixels the filters reach *)
        reach(k) == 16 * (d[k] \div s[k] + 2)
        (* first pixel of windows: at the ends, and close to the middle *)
        at(k, n) == {0, d[k] - 2} \cup (LET m == 2 * (d[k] \div 4) IN {x \in {m - reach(k) - 2, m + reach(k)} : x >= 0 /\ x <= d[k] - 2})
        far(k, x) == small(k) \/ x + 2 + reach(k) <= d[k] \div 2 \/ x >= d[k] \div 2 + reach(k)
        wins == SetToSeq({[x |-> x, y |-> y, w |-> 2, h |-> 2, q |-> quarter(x, y)] :
                            x \in {x \in at(1, 1) : far(1, x)}, y \in {y \in at(2, 2) : far(2, y)}})
    IN  [op |-> "resize", algs |-> <<Pick(i, 4, Algs)>>,
         steps |-> <<[op |-> "resize", r |-> 1, log |-> "wi", wins |-> wins,
                      src |-> WithData(AnyLayout(i, 1000, f, s[1], s[2], AnyCI(i, 5, f)), data),
                      dst |-> AnyLayout(i, 1200, f, d[1], d[2], AnyCI(i, 7, f))]>>]

(* --- C19: few resizers, few formats and sizes, so that a resizer meets them in all orders --- *)
History(i) ==
    LET n == Range(i, 1, 3, 9)
        fs == <<Pick(i, 2, FormatSeq), Pick(i, 3, FormatSeq), Pick(i, 4, FormatSeq)>>
        sz == <<Pick(i, 5, EvenSizes), Pick(i, 6, EvenSizes), Pick(i, 7, Sizes), Pick(i, 8, EvenSizes)>>
        na == Range(i, 9, 1, 3)
        st(j) ==
            LET k == 40 * j  f == Pick(i, k, fs) IN
            IF j > 1 /\ Chance(i, k + 1, 12) THEN [op |-> "clone", r |-> Range(i, k + 2, 1, na)]
            ELSE Step(i, k + 10, Range(i, k + 3, 1, na), f, Pick(i, k + 4, sz), Pick(i, k + 5, sz),
                      IF Chance(i, k + 6, 12) THEN Pick(i, k + 7, fs) ELSE f, Pick(i, k + 8, sz), Pick(i, k + 9, sz), IF Chance(i, k + 10, 40) THEN "Sv" ELSE "")
        steps == [j \in 1..n |-> st(j)]
        (* use what was cloned *)
        clones == {j \in 1..n : steps[j].op = "clone"}
        id(j) == na + Cardinality({c \in clones : c < j})
        fixed == [j \in 1..n |-> IF steps[j].op = "resize" /\ id(j) > na /\ Chance(i, 900 + j, 50)
                                 THEN [steps[j] EXCEPT !.r = Range(i, 930 + j, na + 1, id(j))] ELSE steps[j]]
    IN  [op |-> "resize", algs |-> [a \in 1..na |-> Pick(i, 960 + a, Algs)], steps |-> fixed]

Scenarios ==
    CASE IOEnv.KIND = "resize" -> [i \in 1..(600 * Scale) |-> Single(i)] \o [i \in 1..(6 * Scale) |-> Large(i)]
      [] IOEnv.KIND = "history" -> [i \in 1..(160 * Scale) |-> History(i)]

ASSUME ndJsonSerialize(OutFile, Scenarios)
=============================================================================
