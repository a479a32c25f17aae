--------------------------------- MODULE Aes --------------------------------
(***************************************************************************)
(* AES-128 (FIPS 197), from its definition.  A block is a sequence of 16     *)
(* bytes; byte r + 4c + 1 is row r, column c of the state (r, c from 0).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

Bytes == 0..255

XorAll(s) == FoldLeft(LAMBDA x, y : x ^^ y, 0, s)

XTime(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27        \* multiplication by x in GF(2^8)

\* The product in GF(2^8) modulo x^8 + x^4 + x^3 + x + 1.
GMul(a, b) ==
  LET Step(t, i) == <<IF (b \div 2^i) % 2 = 1 THEN t[1] ^^ t[2] ELSE t[1], XTime(t[2])>>
  IN  FoldLeft(Step, <<0, a>>, <<0, 1, 2, 3, 4, 5, 6, 7>>)[1]

Inv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in Bytes : GMul(a, b) = 1

Rotl(a, k) == ((a * 2^k) % 256) + (a \div 2^(8 - k))

\* SubBytes on one byte: the inverse, then an affine map over GF(2).
SBox == TLCEval([a \in Bytes |-> LET b == Inv(a)
                                 IN  XorAll(<<b, Rotl(b, 1), Rotl(b, 2), Rotl(b, 3), Rotl(b, 4), 99>>)])

X2 == TLCEval([a \in Bytes |-> XTime(a)])

XorBlock(s, k)  == TLCEval([i \in 1..16 |-> s[i] ^^ k[i]])
SubShift(s)     ==  \* SubBytes, then ShiftRows: row r moves r columns to the left
  TLCEval([i \in 1..16 |-> LET r == (i - 1) % 4
                               c == (i - 1) \div 4
                           IN  SBox[s[r + 4 * ((c + r) % 4) + 1]]])
MixColumns(s) ==
  TLCEval([i \in 1..16 |->
    LET r == (i - 1) % 4
        b == 4 * ((i - 1) \div 4) + 1
        x(j) == s[b + ((r + j) % 4)]
    IN  XorAll(<<X2[x(0)], X2[x(1)], x(1), x(2), x(3)>>)])

RCon(i) == FoldLeft(LAMBDA a, j : XTime(a), 1, [j \in 1..(i - 1) |-> j])

\* The key of round i from that of round i - 1.
NextKey(k, i) ==
  LET g == <<SBox[k[14]] ^^ RCon(i), SBox[k[15]], SBox[k[16]], SBox[k[13]]>>
      Step(w, j) == Append(w, k[j] ^^ (IF j <= 4 THEN g[j] ELSE w[j - 4]))
  IN  FoldLeft(Step, <<>>, [j \in 1..16 |-> j])

RoundKeys(k) == FoldLeft(LAMBDA ks, i : Append(ks, NextKey(ks[i], i)), <<k>>, [i \in 1..10 |-> i])

Encrypt(pt, key) ==
  LET ks == RoundKeys(key)
      Round(s, i) == XorBlock(MixColumns(SubShift(s)), ks[i + 1])
      s9 == FoldLeft(Round, XorBlock(pt, ks[1]), [i \in 1..9 |-> i])
  IN  XorBlock(SubShift(s9), ks[11])

\* The example vectors of FIPS 197, appendices B and C.1.
KnownAnswers ==
  /\ Encrypt([i \in 1..16 |-> 17 * (i - 1)], [i \in 1..16 |-> i - 1])
       = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
  /\ Encrypt(<<50, 67, 246, 168, 136, 90, 48, 141, 49, 49, 152, 162, 224, 55, 7, 52>>,
             <<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>)
       = <<57, 37, 132, 29, 2, 220, 9, 251, 220, 17, 133, 151, 25, 106, 11, 50>>
=============================================================================
