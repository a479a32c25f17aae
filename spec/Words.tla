------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Arithmetic on N-bit words, for any N: two's complement integers, bit      *)
(* vectors, prime-field elements, Montgomery reduction, 64-bit division.     *)
(*                                                                          *)
(* A word of n bits is the sequence of its Limbs(n) digits in base 2^12,     *)
(* least significant first; the top digit has the remaining n mod 12 bits.   *)
(* (TLC's integers have 32 bits, so words are computed digit by digit.)      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, TLC

Base == 4096
Limbs(n) == (n + 11) \div 12
TopMask(n) == 2^(n - 12 * (Limbs(n) - 1)) - 1

IsWord(a, n) ==
  /\ Len(a) = Limbs(n)
  /\ \A i \in 1..Len(a) : a[i] >= 0 /\ a[i] < Base
  /\ n > 0 => a[Len(a)] <= TopMask(n)

Limb(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0

\* The low n bits.
\* (TLCEval only makes TLC compute the digits once.)
Trunc(a, n) == TLCEval([i \in 1..Limbs(n) |-> IF i = Limbs(n) THEN Limb(a, i) & TopMask(n) ELSE Limb(a, i)])

Zero(n) == [i \in 1..Limbs(n) |-> 0]
One(n)  == [i \in 1..Limbs(n) |-> IF i = 1 THEN 1 ELSE 0]
Ones(n) == Trunc([i \in 1..Limbs(n) |-> Base - 1], n)

\* Digits that may exceed the base, to digits; the last carry is dropped.
Norm(s) ==
  LET Step(t, x) == LET v == x + t[1] IN <<v \div Base, Append(t[2], v % Base)>>
  IN  FoldLeft(Step, <<0, <<>>>>, TLCEval(s))[2]

Bit(a, i)  == (Limb(a, i \div 12 + 1) \div 2^(i % 12)) % 2
Sign(a, n) == Bit(a, n - 1)

-----------------------------------------------------------------------------
(* Integers modulo 2^n *)

Add(a, b, n) == Trunc(Norm([i \in 1..Limbs(n) |-> Limb(a, i) + Limb(b, i)]), n)
Compl(a, n)  == Trunc(TLCEval([i \in 1..Limbs(n) |-> Base - 1 - Limb(a, i)]), n)
Neg(a, n)    == Add(Compl(a, n), One(n), n)
Sub(a, b, n) == Add(a, Neg(b, n), n)

Mul(a, b, n) ==
  LET Column(k) == FoldLeft(LAMBDA s, i : s + Limb(a, i) * Limb(b, k + 1 - i), 0,
                            [i \in 1..(IF k < Len(a) THEN k ELSE Len(a)) |-> i])
  IN  Trunc(Norm([k \in 1..Limbs(n) |-> Column(k)]), n)
MulExt(a, b, n) == Mul(a, b, 2 * n)

LtU(a, b) ==
  LET D == {i \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : Limb(a, i) # Limb(b, i)}
  IN  D # {} /\ LET m == CHOOSE i \in D : \A j \in D : j <= i
                IN  Limb(a, m) < Limb(b, m)
LeU(a, b) == ~LtU(b, a)

LtS(a, b, n) == IF Sign(a, n) # Sign(b, n) THEN Sign(a, n) = 1 ELSE LtU(a, b)

\* x * 2^k and the sign-extending shift, for any k >= 0.
Shl(a, k, n) ==
  LET q == k \div 12
      s == k % 12
  IN  Trunc(TLCEval([i \in 1..Limbs(n) |->
              ((Limb(a, i - q) * 2^s) % Base) + (Limb(a, i - q - 1) \div 2^(12 - s))]), n)
Shr(a, k, n) ==      \* zeros come in at the top
  LET q == k \div 12
      s == k % 12
  IN  TLCEval([i \in 1..Limbs(n) |->
         (Limb(a, i + q) \div 2^s) + ((Limb(a, i + q + 1) * 2^(12 - s)) % Base)])
Sar(a, k, n) == IF Sign(a, n) = 0 THEN Shr(a, k, n)
                ELSE Compl(Shr(Compl(a, n), k, n), n)

BAnd(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
BOr(a, b)  == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
BXor(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

\* From bits, least significant first.
FromBits(bits, n) ==
  TLCEval([i \in 1..Limbs(n) |->
     FoldLeft(LAMBDA s, j : s + (IF 12 * (i - 1) + j <= Len(bits) THEN bits[12 * (i - 1) + j] * 2^(j - 1) ELSE 0),
              0, [j \in 1..12 |-> j])])

Slice(a, lo, n) == Trunc(Shr(a, lo, 12 * Len(a)), n)

-----------------------------------------------------------------------------
(* Residues modulo p.  p is an n-bit word with a spare bit (2p < 2^n). *)

FAdd(a, b, p, n) == LET s == Add(a, b, n) IN IF LtU(s, p) THEN s ELSE Sub(s, p, n)
FSub(a, b, p, n) == IF LtU(a, b) THEN Sub(Add(a, p, n), b, n) ELSE Sub(a, b, n)
FNeg(a, p, n)    == FSub(Zero(n), a, p, n)

\* x mod p for an m-bit word x and an r-bit word p # 0, bit by bit from the top.
ModBits(x, m, p, r, n) ==
  LET w == r + 2
      q == Trunc(p, w)
      Step(s, i) ==
        LET d == Add(Add(s, s, w), IF Bit(x, m - i) = 1 THEN One(w) ELSE Zero(w), w)
        IN  IF LtU(d, q) THEN d ELSE Sub(d, q, w)
  IN  Trunc(FoldLeft(Step, Zero(w), [i \in 1..m |-> i]), n)

\* Words of at most 30 bits are also TLC integers.
ToInt(a) == Limb(a, 1) + 4096 * Limb(a, 2) + 16777216 * Limb(a, 3)
FromInt(v, n) == TLCEval([i \in 1..Limbs(n) |-> CASE i = 1 -> v % 4096
                                                  [] i = 2 -> (v \div 4096) % 4096
                                                  [] i = 3 -> v \div 16777216
                                                  [] OTHER -> 0])

Mod(x, m, p, r, n) == IF m <= 30 THEN FromInt(ToInt(x) % ToInt(p), n) ELSE ModBits(x, m, p, r, n)

\* a and b have at most r bits, like p.
FMul(a, b, p, r, n) ==
  IF 2 * r <= 30 THEN FromInt((ToInt(a) * ToInt(b)) % ToInt(p), n)
                 ELSE ModBits(Mul(Trunc(a, r), Trunc(b, r), 2 * r), 2 * r, p, r, n)

\* t is the residue of v / 2^r modulo p, for v < 2^r * p.
IsMont(t, v, p, r, n) ==
  /\ LtU(t, p)
  /\ Mod(Shl(t, r, 2 * r), 2 * r, p, r, n) = Mod(v, 2 * r, p, r, n)

-----------------------------------------------------------------------------
(* Division: q is the quotient of a by b # 0. *)

IsQuotU(q, a, b, n) ==
  LET qb == MulExt(q, b, n)
      aa == Trunc(a, 2 * n)
  IN  LeU(qb, aa) /\ LtU(Sub(aa, qb, 2 * n), Trunc(b, 2 * n))

Abs(a, n) == IF Sign(a, n) = 1 THEN Neg(a, n) ELSE a

\* Truncated toward zero; the quotient of -2^(n-1) by -1 wraps to -2^(n-1).
IsQuotS(q, a, b, n) ==
  LET m == IF Sign(a, n) = Sign(b, n) THEN q ELSE Neg(q, n)   \* |a| / |b|, as an unsigned word
  IN  IsQuotU(m, Abs(a, n), Abs(b, n), n)
=============================================================================
