---------------------------- MODULE GenConcurrent ----------------------------
(* Scenarios for ConcurrentTrace *)
EXTENDS GenLib, Json

Algs == <<"nearest", "conv-box", "conv-bilinear", "interp-bilinear", "conv-lanczos", "super">>

CIOf(i, k, f, t, p) ==
    IF ~Fmt[f].yuv THEN RgbCI(t, p)
    ELSE YuvCI(t, p, IF Chance(i, k, 90) THEN Pick(i, k + 1, MatSpaces) ELSE "ICtCpHLG", Chance(i, k + 2, 50))

Scen(i) ==
    LET (* callers which wait in the deques of the workers, and steal from each other *)
        mode == Pick(i, 9, <<"threads", "threads", "pool", "join", "join">>)
        n == IF mode = "join" THEN Range(i, 1, 6, 16) ELSE Range(i, 1, 2, 5)
        (* nothing but resizes, or nothing but conversions *)
        only == mode = "join" /\ Chance(i, 12, 60)
        onlyRs == Chance(i, 13, 50)
        light == i % 3 = 0
        t(k) == IF light THEN Pick(i, k, <<"SRGB", "Gamma22", "Linear", "HLG">>) ELSE Pick(i, 2, <<"SRGB", "Gamma28", "SDR", "HLG">>)
        p(k) == IF i % 6 = 0 THEN Pick(i, k, Primaries) ELSE Pick(i, 3, Primaries)
        w == IF only THEN 16 ELSE Pick(i, 4, <<16, 20, 34, 50>>)  h == Pick(i, 5, <<4, 8, 12>>)
        sf == FormatSeq[1 + (i % 15)]
        (* few formats, so that callers do similar things *)
        fs == <<Pick(i, 6, FormatSeq), Pick(i, 7, FormatSeq), sf>>
        caller(c) ==
            LET k == 1000 * c
                rs == IF only THEN onlyRs ELSE Chance(i, k, 25)   \* resizes
                f1 == IF rs THEN sf ELSE Pick(i, k + 1, fs)
                f2 == Pick(i, k + 2, fs)
                w1 == IF rs THEN Pick(i, k + 3, <<8, 16, 24, 40>>) ELSE w
                h1 == IF rs THEN Pick(i, k + 4, <<4, 8, 10>>) ELSE h
                i1 == AnyLayout(i, k + 100, f1, w1, h1, CIOf(i, k + 5, f1, t(k + 8), p(k + 9)))
                i2 == AnyLayout(i, k + 300, f2, w1, h1, CIOf(i, k + 15, f2, t(k + 18), p(k + 19)))
                how(m) == Pick(i, k + m, <<"st", "mt", "mt">>)
            IN  [alg |-> Pick(i, k + 20, Algs),
                 imgs |-> IF Chance(i, k + 21, 50) THEN <<i1>> ELSE <<i1, i2>>,
                 apis |-> IF Chance(i, k + 21, 50) THEN <<IF rs THEN "resize" ELSE how(22)>>
                          ELSE <<IF rs THEN "resize" ELSE how(22), how(23)>>]
    IN  [op |-> "concurrent", cpus |-> Range(i, 8, 1, 6), mode |-> mode,
         workers |-> IF mode = "join" THEN Range(i, 10, 2, 6) ELSE Range(i, 10, 1, 4),
         reps |-> IF mode = "join" THEN (IF only THEN 400 ELSE 100) ELSE 12, every |-> IF mode = "join" THEN 29 ELSE 7,
         src |-> WithData(AnyLayout(i, 50, sf, w, h, CIOf(i, 11, sf, t(14), p(15))),
                          [m |-> "gamut", lo |-> 20, hi |-> 80, amp |-> 10, s |-> Rnd(i, 16, 40000)]),
         callers |-> [c \in 1..n |-> caller(c)]]

ASSUME ndJsonSerialize(OutFile, [i \in 1..(90 * Scale) |-> Scen(i)])
=============================================================================
