----------------------------- MODULE WordsCheck -----------------------------
(***************************************************************************)
(* Words against TLC's own integers, on all words of small widths and on     *)
(* words around the digit boundary.  One state per (width, a); the invariant *)
(* quantifies over b.                                                        *)
(***************************************************************************)
EXTENDS Words

CONSTANTS Widths, Edge    \* Edge: widths checked on edge values only

VARIABLES w, x
wcvars == <<w, x>>

Pow(n) == 2^n
Num(a) == FoldRight(LAMBDA d, s : d + Base * s, a, 0)
Word(v, n) == [i \in 1..Limbs(n) |-> (v \div Base^(i - 1)) % Base]
SInt(a, n) == IF Sign(a, n) = 1 THEN Num(a) - Pow(n) ELSE Num(a)
MinI(i, j) == IF i < j THEN i ELSE j

Vals(n) == IF n \in Edge
           THEN LET near == {0, 1, 2, 3, 5, 4094, 4095, 4096, 4097, Pow(n-1) - 1, Pow(n-1), Pow(n-1) + 1,
                             Pow(n) - 1, Pow(n) - 2, Pow(n) \div 3, 2 * (Pow(n) \div 3)}
                IN  {v \in near : v < Pow(n)}
           ELSE 0..(Pow(n) - 1)

Init == w = 0 /\ x = -1
Next == \/ w = 0 /\ w' \in Widths \cup Edge /\ x' = x
        \/ w # 0 /\ x = -1 /\ w' = w /\ x' \in Vals(w)
Spec == Init /\ [][Next]_wcvars

A == Word(x, w)

Chosen == x >= 0

Representation == Chosen =>
  /\ IsWord(A, w) /\ Num(A) = x
  /\ A = FromBits([i \in 1..w |-> Bit(A, i - 1)], w)

Binary == Chosen =>
  \A y \in Vals(w) :
    LET b == Word(y, w)
    IN  /\ Num(Add(A, b, w)) = (x + y) % Pow(w)
        /\ Num(Sub(A, b, w)) = (x - y) % Pow(w)
        /\ w <= 15 => Num(Mul(A, b, w)) = (x * y) % Pow(w)
        /\ w <= 15 => Num(MulExt(A, b, w)) = x * y
        /\ LtU(A, b) <=> x < y
        /\ LtS(A, b, w) <=> SInt(A, w) < SInt(b, w)
        /\ Num(BAnd(A, b)) = (x & y) /\ Num(BOr(A, b)) = (x | y) /\ Num(BXor(A, b)) = (x ^^ y)
        /\ y # 0 /\ w <= 15 => IsQuotU(Word(x \div y, w), A, b, w)
        /\ y # 0 /\ w <= 8 =>
             \A q \in 0..(Pow(w) - 1) :
               /\ IsQuotU(Word(q, w), A, b, w) <=> q = x \div y
               /\ IsQuotS(Word(q, w), A, b, w) <=>
                    LET sa == SInt(A, w)
                        sb == SInt(b, w)
                        mag == (IF sa < 0 THEN -sa ELSE sa) \div (IF sb < 0 THEN -sb ELSE sb)
                    IN  q = (IF (sa < 0) = (sb < 0) THEN mag ELSE -mag) % Pow(w)

Single == Chosen =>
  /\ ToInt(A) = x /\ FromInt(x, w) = A
  /\ Num(Neg(A, w)) = (-x) % Pow(w)
  /\ \A k \in 0..(w + 3) :
       /\ k + w <= 28 => Num(Shl(A, k, w)) = (x * Pow(k)) % Pow(w)
       /\ Num(Shr(A, k, w)) = x \div Pow(k)
       /\ Num(Sar(A, k, w)) = (SInt(A, w) \div Pow(k)) % Pow(w)

Field == Chosen =>
  \A p \in {q \in {3, 5, 7, 11, 13, 31, 127, 251, 509, 2039} : 2 * q <= Pow(w - 1)} :
    /\ Num(ModBits(A, w, Word(p, w), w - 1, w)) = x % p
    /\ Num(Mod(A, w, Word(p, w), w - 1, w)) = x % p
    /\ x < p =>
         \A y \in {v \in Vals(w) : v < p} :
           LET b == Word(y, w)
               pp == Word(p, w)
           IN  /\ Num(FAdd(A, b, pp, w)) = (x + y) % p
               /\ Num(FSub(A, b, pp, w)) = (x - y) % p
               /\ Num(FNeg(A, pp, w)) = (-x) % p
               /\ Num(FMul(A, b, pp, 11, w)) = (x * y) % p
               /\ p < 40 => Num(ModBits(MulExt(A, b, w), 2 * w, pp, w - 1, w)) = (x * y) % p
               /\ p < 14 /\ w <= 10 =>
                    \A t \in 0..p : IsMont(Word(t, w), b, pp, 4, w)
                                      <=> t < p /\ (t * 16) % p = y % p
=============================================================================
