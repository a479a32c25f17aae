-------------------------------- MODULE Utils -------------------------------
(***************************************************************************)
(* Conversions between bytes, bits and hexadecimal digits, and integers of   *)
(* any size: <<sign, digits>> with digits in base 2^12 and no leading zeros. *)
(***************************************************************************)
EXTENDS Words

\* One byte, as 8 bits: the bit of weight 2^j comes at place j (le) or 7 - j (be).
BytesToBits(v, be) ==
  [i \in 1..(8 * Len(v)) |->
     LET j == (i - 1) % 8 IN (v[(i - 1) \div 8 + 1] \div 2^(IF be THEN 7 - j ELSE j)) % 2]

BitsToBytes(v, be) ==
  [i \in 1..(Len(v) \div 8) |->
     FoldLeft(LAMBDA s, j : s + v[8 * (i - 1) + j + 1] * 2^(IF be THEN 7 - j ELSE j), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]

\* Characters are code points.
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d                 \* 0-9, a-f
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
DigitOf(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87

BytesToHex(v) == [i \in 1..(2 * Len(v)) |-> LET b == v[(i + 1) \div 2]
                                            IN  Digit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
HexOk(v)      == Len(v) % 2 = 0 /\ \A i \in 1..Len(v) : IsHex(v[i])
HexToBytes(v) == [i \in 1..(Len(v) \div 2) |-> 16 * DigitOf(v[2 * i - 1]) + DigitOf(v[2 * i])]

-----------------------------------------------------------------------------
IsInteger(x) ==
  /\ x[1] \in {-1, 0, 1}
  /\ \A i \in 1..Len(x[2]) : x[2][i] \in 0..(Base - 1)
  /\ IF x[1] = 0 THEN x[2] = <<>> ELSE x[2] # <<>> /\ x[2][Len(x[2])] # 0

Width(x) == 12 * Len(x[2])
\* As a two's complement word of n bits, n > Width(x).
AsWord(x, n) == IF x[1] < 0 THEN Neg(Trunc(x[2], n), n) ELSE Trunc(x[2], n)
MaxW(S) == CHOOSE n \in S : \A m \in S : m <= n

\* a * x + b * y = d, computed in words wide enough for all terms.
Bezout(a, b, x, y, d) ==
  LET n == 12 + MaxW({Width(a) + Width(x), Width(b) + Width(y), Width(d)}) + 12
  IN  Add(Mul(AsWord(a, n), AsWord(x, n), n), Mul(AsWord(b, n), AsWord(y, n), n), n) = AsWord(d, n)

Divides(d, a) ==
  IF d[1] = 0 THEN a[1] = 0
  ELSE a[1] = 0 \/ LET r == Width(d)
                   IN  ModBits(a[2], Width(a), d[2], r, r) = Zero(r)

\* x, y, d are cofactors and a greatest common divisor of a and b (up to sign): a common
\* divisor that is a combination of a and b is divided by every common divisor.
IsExtGcd(a, b, x, y, d) ==
  /\ IsInteger(x) /\ IsInteger(y) /\ IsInteger(d)
  /\ Bezout(a, b, x, y, d) /\ Divides(d, a) /\ Divides(d, b)
=============================================================================
