----------------------------- MODULE MCTransfer -----------------------------
(***************************************************************************)
(* The tables of Color are what the defining equations of the transfer       *)
(* functions say: the encoding equation, evaluated with the arithmetic of    *)
(* Fixed, gives back the position of every entry. Walks through all tables.  *)
(***************************************************************************)
EXTENDS Color

VARIABLES n, i
vars == <<n, i>>

(* x^p for x with `bits` fractional bits (24 or 27), p with 24 *)
Pow(x, bits, p) == IF x <= 0 THEN 0 ELSE Exp2(Mul(Log2(x) - (bits - 24) * One, p), 24)
Ln2 == Quo(693147 \div 4, 250000)
C(a, b) == Quo(a, b)

(* The encoding equations, x: linear light with 27 fractional bits *)
EncGamma(x, g) == Pow(x, 27, C(10, g))
EncSrgb(x) == IF x <= 420207 THEN Mul(x, C(1292, 100)) \div 8 ELSE Mul(Pow(x, 27, C(5, 12)), C(1055, 1000)) - C(55, 1000)
EncSdr(x) == IF x < 2415919 THEN (x \div 16) * 9 ELSE Mul(Pow(x, 27, C(45, 100)), C(1099, 1000)) - C(99, 1000)
(* BT.2100: sqrt(3 x) up to 1/12, a ln(12 x - b) + c *)
HlgA == 3000312   HlgB == 4775952   HlgC == 9393743
EncHlg(x) ==
    IF x <= LOne \div 12 THEN Pow(3 * x, 27, Half)
    ELSE Mul(Mul(Log2(12 * x - 8 * HlgB) - 3 * One, 11629080), HlgA) + HlgC
(* BT.2100 / ST 2084 *)
M1 == C(2610, 16384)
C1 == C(3424, 4096)   C2 == C(2413, 128)   C3 == C(2392, 128)
EncPqFrom(y) ==
    LET num == C1 + Mul(C2, y)  den == One + Mul(C3, y)
    IN  Exp2((Log2(num) - Log2(den)) * 78 + Mul(Log2(num) - Log2(den), C(27, 32)), 24)
EncPq(x) == EncPqFrom(Pow(x, 27, M1))
(* x relative to 1: x / 10000, log2(10000) = 13.287712379549449 *)
EncPq1(x) == IF x <= 0 THEN EncPqFrom(0) ELSE EncPqFrom(Exp2(Mul(Log2(x) - 3 * One - 222930820, M1), 24))

Encode(t, x) ==
    CASE t = "Gamma22" -> EncGamma(x, 22)
      [] t = "Gamma28" -> EncGamma(x, 28)
      [] t = "SRGB" -> EncSrgb(x)
      [] t = "SDR" -> EncSdr(x)
      [] t = "HLG" -> EncHlg(x)
      [] t = "PQ" -> EncPq(x)
      [] t = "PQ1" -> EncPq1(x)

Names == <<"Gamma22", "Gamma28", "SRGB", "SDR", "HLG", "PQ", "PQ1">>
(* of the arithmetic of this module, in 2^-24 *)
Tol(t) == CASE t \in {"PQ", "PQ1"} -> 4000 [] t = "SDR" -> 5100 [] t = "SRGB" -> 700 [] OTHER -> 300

TableCorrect ==
    LET t == Names[n]  x == Tab[t][i]  e == (i - 1) * TabStep(t) IN
    x <= LOne + LOne \div 4 =>
        IF Encode(t, x - 1) - Tol(t) <= e /\ e <= Encode(t, x + 1) + Tol(t) THEN TRUE
        ELSE PrintT(<<t, i, x, e, Encode(t, x - 1), Encode(t, x), Encode(t, x + 1)>>) /\ FALSE

Monotone == i > 1 => Tab[Names[n]][i - 1] <= Tab[Names[n]][i]
(* decoding is convex, as DecHi and DecLo assume: the slope increases, by no  *)
(* more than DecLo allows for (except at a junction)                          *)
Convex ==
    (i > 2 /\ ~(Names[n] \in {"SRGB", "SDR", "HLG"})) =>
        LET T == Tab[Names[n]] IN (T[i] - T[i - 1]) - (T[i - 1] - T[i - 2]) >= -1
EndPoints ==
    LET t == Names[n]  T == Tab[t] IN
    /\ T[1] = 0
    /\ t # "PQ1" => FAbs(T[4097] - LOne) <= (IF t = "HLG" THEN 64 ELSE 0)

(* Enc and Dec of Color contain each other's inverse *)
Contained ==
    LET t == Names[n]  tt == IF t = "PQ1" THEN "PQ" ELSE t  U == IF t = "PQ1" THEN 1 ELSE 10000
        e == (i - 1) * TabStep(t) + (i % 7) * (TabStep(t) \div 8)
        l == Dec(tt, U, I(e))
    IN  (DecDefined(tt, U, I(e)) /\ EncDefined(tt, U, l) /\ e > 0) =>
            LET b == Enc(tt, U, l) IN b[1] <= e /\ e <= b[2] /\ Enc(tt, U, l)[1] <= Enc(tt, U, I(l[1]))[2]

CONSTANT Step
Chunk == 256
(* in chunks, only to let several workers explore *)
Init == n \in 1..Len(Names) /\ i \in {k * Chunk + 1 : k \in 0..((Len(Tab[Names[n]]) - 1) \div Chunk)}
Next ==
    /\ i + Step <= Len(Tab[Names[n]])
    /\ (i + Step - 1) \div Chunk = (i - 1) \div Chunk
    /\ i' = i + Step
    /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
=============================================================================
