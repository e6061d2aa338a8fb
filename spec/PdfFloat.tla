------------------------------- MODULE PdfFloat -------------------------------
(***************************************************************************)
(* Exact arithmetic for 32-bit IEEE 754 numbers and decimal tokens.  TLC   *)
(* integers have 32 bits, so integers here are little-endian sequences of  *)
(* limbs in base 10^4.                                                     *)
(*                                                                         *)
(* A finite float is <<s, e, m>>: sign bit, biased exponent (0..254) and   *)
(* the 23 fraction bits.  A decimal token is the `b` of a "num" value of   *)
(* PdfReader: <<neg, real, scale, d1, ..., dn>>.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

BASE == 10000

RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x

\* x * k for 0 <= k <= 10^4
RECURSIVE MulC(_, _, _, _, _)
MulC(x, k, i, c, acc) ==
    IF i > Len(x) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET t == x[i] * k + c
         IN  MulC(x, k, i + 1, t \div BASE, Append(acc, t % BASE))
BigMul(x, k) == Trim(MulC(x, k, 1, 0, <<>>))

\* A natural number below 2^31 as limbs.
BigOf(n) == Trim(<<n % BASE, (n \div BASE) % BASE, n \div 100000000>>)

RECURSIVE MulPow2(_, _)
MulPow2(x, n) ==
    IF n <= 0 THEN x
    ELSE IF n >= 13 THEN MulPow2(BigMul(x, 8192), n - 13)
    ELSE BigMul(x, 2 ^ n)

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
MulPow10(x, n) ==
    LET y == IF n % 4 = 0 THEN x ELSE BigMul(x, 10 ^ (n % 4))
    IN  IF y = <<>> THEN y ELSE Zeros(n \div 4) \o y

\* Digits, most significant first.
RECURSIVE BigDigits(_, _, _)
BigDigits(d, i, acc) ==
    IF i > Len(d) THEN acc
    ELSE LET t == BigMul(acc, 10)
         IN  BigDigits(d, i + 1,
                 IF d[i] = 0 THEN t
                 ELSE IF t = <<>> THEN <<d[i]>>
                 ELSE [t EXCEPT ![1] = @ + d[i]])  \* a multiple of 10: no carry

\* -1, 0, 1
RECURSIVE CmpAt(_, _, _)
CmpAt(x, y, i) ==
    IF i = 0 THEN 0
    ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE CmpAt(x, y, i - 1)
BigCmp(x, y) ==
    IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE CmpAt(x, y, Len(x))

----------------------------------------------------------------------------
IsFinite(f) == f[2] < 255
IsZeroF(f) == f[2] = 0 /\ f[3] = 0
Significand(f) == IF f[2] = 0 THEN f[3] ELSE f[3] + 8388608
Exponent(f) == (IF f[2] = 0 THEN 1 ELSE f[2]) - 150

\* Compare n * 2^q with (digits) * 10^-s, n a small natural.
CmpScaled(n, q, dig, s) ==
    LET l == MulPow10(MulPow2(BigOf(n), q), s)       \* q >= 0 part
        r == MulPow2(dig, -q)
    IN  BigCmp(l, r)

\* Does the token denote a number that IEEE round-to-nearest-even maps to f?
RoundTrips(f, b) ==
    LET n == Len(b)
        dig0 == SubSeq(b, 4, n)
        s == b[3]
    IN  IF IsZeroF(f) THEN dig0 = <<>>
        ELSE IF dig0 = <<>> \/ b[1] # f[1] THEN FALSE
        ELSE LET m == Significand(f)
                 q == Exponent(f)
                 dig == Trim(BigDigits(dig0, 1, <<>>))
                 even == m % 2 = 0
                 hi == CmpScaled(2 * m + 1, q - 1, dig, s)
                 \* below a power of two the gap is half as wide
                 lo == IF f[3] = 0 /\ f[2] > 1
                       THEN CmpScaled(4 * m - 1, q - 2, dig, s)
                       ELSE CmpScaled(2 * m - 1, q - 1, dig, s)
             IN  (IF even THEN hi >= 0 ELSE hi > 0)
                 /\ (IF even THEN lo <= 0 ELSE lo < 0)

\* f as a 32-bit integer if it is one: <<ok, n>>.  2^31 counts as 2^31 - 1, which
\* is the same float.
FloatInt(f) ==
    IF IsZeroF(f) THEN <<TRUE, 0>>
    ELSE IF f[2] = 158 /\ f[3] = 0 THEN <<TRUE, IF f[1] = 1 THEN -2147483647 ELSE 2147483647>>
    ELSE LET m == Significand(f)
             q == Exponent(f)
         IN  IF q > 7 \/ q < -23 THEN <<FALSE, 0>>
             ELSE IF q >= 0
                  THEN <<TRUE, IF f[1] = 1 THEN -(m * 2 ^ q) ELSE m * 2 ^ q>>
                  ELSE IF m % (2 ^ (-q)) # 0 THEN <<FALSE, 0>>
                       ELSE LET a == m \div (2 ^ (-q))
                            IN  <<TRUE, IF f[1] = 1 THEN -a ELSE a>>

\* Order of the absolute values.
AbsLeq(f, g) == f[2] < g[2] \/ (f[2] = g[2] /\ f[3] <= g[3])
AbsMax(f, g) == IF AbsLeq(f, g) THEN g ELSE f
FZero == <<0, 0, 0>>
Abs(f) == <<0, f[2], f[3]>>
=============================================================================
