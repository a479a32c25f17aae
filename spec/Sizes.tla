-------------------------------- MODULE Sizes --------------------------------
(***************************************************************************)
(* The sizes of circuits beyond what TLC's integers hold: a hierarchy that   *)
(* calls each module twice has 2^k gates after k levels.  Numbers are        *)
(* sequences of digits to the base 10^4, least significant first, without    *)
(* leading zeros (so that equal numbers are equal sequences).                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Base == 10000

\* Carry propagation as in column addition.
BigAdd(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(b) ELSE Len(a)
      D(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
      r == FoldLeft(LAMBDA acc, i :
                      LET s == D(a, i) + D(b, i) + acc.c
                      IN  [d |-> Append(acc.d, s % Base), c |-> s \div Base],
                    [d |-> <<>>, c |-> 0], [i \in 1..n |-> i])
  IN  IF r.c = 0 THEN r.d ELSE Append(r.d, r.c)

RECURSIVE Big(_)
Big(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Big(n \div Base)

\* The sizes of a circuit: numbers of inputs and outputs as integers, the others big.
NoSizes == [nin |-> 0, nout |-> 0, nconst |-> <<>>, ngate |-> <<>>, nwire |-> <<>>]
One == <<1>>
ZInput(z)  == [z EXCEPT !.nin = @ + 1, !.nwire = BigAdd(@, One)]
ZConst(z)  == [z EXCEPT !.nconst = BigAdd(@, One), !.nwire = BigAdd(@, One)]
ZGate(z)   == [z EXCEPT !.ngate = BigAdd(@, One), !.nwire = BigAdd(@, One)]
ZOutput(z) == [z EXCEPT !.nout = @ + 1]
\* A call of a module with sizes m: its constants and gates, each a wire, once more.
ZCall(z, m) == [z EXCEPT !.nconst = BigAdd(@, m.nconst), !.ngate = BigAdd(@, m.ngate),
                         !.nwire = BigAdd(@, BigAdd(m.nconst, m.ngate))]
=============================================================================
