------------------------------- MODULE Fixed -------------------------------
(***************************************************************************)
(* Fixed point arithmetic within the 32 bit integers of TLC. `One` stands   *)
(* for 1.0 in encoded values and coefficients (2^24), `LOne` for 1.0 in      *)
(* linear light (2^27).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

One  == 16777216
LOne == 134217728

(* a * b, where b has 24 fractional bits, rounded down (by at most 1 unit). *)
(* |a * b| must be less than 2^31 units, |a| <= 2^30                        *)
Mul(a, b) ==
    LET ah == a \div 4096  al == a % 4096  bh == b \div 4096  bl == b % 4096
    IN  ah * bh + ((ah * bl + al * bh + ((al * bl) \div 4096)) \div 4096)

(* a / b for 0 <= a <= 2^18 * b, b < 2^19: 24 fractional bits *)
Quo(a, b) ==
    LET q == a \div b  r1 == (a % b) * 4096 IN q * One + (r1 \div b) * 4096 + ((r1 % b) * 4096) \div b

(* a * m / d without the intermediate exceeding 32 bits for 0 <= m <= d = 4096 *)
Frac(a, m) == (a \div 4096) * m + ((a % 4096) * m) \div 4096

FMin(a, b) == IF a < b THEN a ELSE b
FMax(a, b) == IF a > b THEN a ELSE b
FAbs(a) == IF a < 0 THEN -a ELSE a

---------------------------------------------------------------------------
(* Powers, from first principles: used to verify the tables of the transfer *)
(* functions, too slow to be used for every pixel                            *)

(* a / b with 24 fractional bits, for 0 < a, 0 < b < 2^30: long division *)
RECURSIVE LongDiv(_, _, _, _)
LongDiv(r, b, n, q) ==
    IF n = 0 THEN q
    ELSE LET r2 == 2 * r IN IF r2 >= b THEN LongDiv(r2 - b, b, n - 1, 2 * q + 1) ELSE LongDiv(r2, b, n - 1, 2 * q)
FDiv(a, b) == LongDiv(a % b, b, 24, a \div b)

RECURSIVE Log2Bits(_, _, _, _)
Log2Bits(x, n, bit, acc) ==
    IF n = 0 THEN acc
    ELSE LET y == Mul(x, x) IN
         IF y >= 2 * One THEN Log2Bits((y + 1) \div 2, n - 1, bit \div 2, acc + bit)
         ELSE Log2Bits(y, n - 1, bit \div 2, acc)

RECURSIVE Log2Norm(_, _)
Log2Norm(x, e) ==
    IF x >= 2 * One THEN Log2Norm(x \div 2, e + 1)
    ELSE IF x < One THEN Log2Norm(2 * x, e - 1)
    ELSE e * One + Log2Bits(x, 24, One \div 2, 0)

(* log2 of a positive value with 24 fractional bits *)
Log2(x) == Log2Norm(x, 0)

(* 2^(2^-i), i = 1.. *)
Roots == <<23726566, 19951585, 18295684, 17520007, 17144589, 16959908, 16868315, 16822704,
           16799944, 16788576, 16782895, 16780055, 16778636, 16777926, 16777571, 16777393,
           16777305, 16777260, 16777238, 16777227, 16777222, 16777219, 16777217, 16777217>>

RECURSIVE Exp2Bits(_, _, _)
Exp2Bits(f, i, acc) ==
    IF i > 24 THEN acc
    ELSE LET bit == One \div (2 ^ i) IN
         IF f >= bit THEN Exp2Bits(f - bit, i + 1, Mul(acc, Roots[i])) ELSE Exp2Bits(f, i + 1, acc)

Shift(x, n) == IF n >= 0 THEN x * 2^n ELSE (x + 2^(-n - 1)) \div 2^(-n)

(* 2^y as value with `bits` fractional bits *)
Exp2(y, bits) ==
    LET i == y \div One  f == y % One
        sh == i + bits - 26
    IN  IF sh < -28 THEN 0 ELSE Shift(Exp2Bits(f, 1, 4 * One), sh)
=============================================================================
