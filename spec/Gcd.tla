--------------------------------- MODULE Gcd ---------------------------------
(***************************************************************************)
(* The extended Euclidean algorithm as the library runs it: down with the     *)
(* pairs (b, a mod b), rounding towards zero as its integers do, until the    *)
(* second is zero; then up with the cofactors.  Checked for all operands up    *)
(* to Max, of either sign: every level returns cofactors and a common divisor  *)
(* of its own operands, the divisor is the greatest, and the descent ends.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Max

VARIABLES stack,  \* pending calls: <<a, b>>
          ret     \* <<>> while going down, then the result <<x, y, d>> of the call last finished
vars == <<stack, ret>>

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* division rounding towards zero
Quo(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Rem(a, b) == a - b * Quo(a, b)

Top == stack[Len(stack)]
Init == /\ ret = <<>>
        /\ \E a, b \in (0 - Max)..Max : stack = << <<a, b>> >>

Down == /\ ret = <<>> /\ Top[2] # 0
        /\ stack' = Append(stack, <<Top[2], Rem(Top[1], Top[2])>>)
        /\ UNCHANGED ret
Base == /\ ret = <<>> /\ Top[2] = 0
        /\ ret' = <<1, 0, Top[1]>>
        /\ UNCHANGED stack
\* The call on top has returned s, t, d to the one below it.
Up == /\ ret # <<>> /\ Len(stack) > 1
      /\ LET c == stack[Len(stack) - 1]
         IN  ret' = <<ret[2], ret[1] - Quo(c[1], c[2]) * ret[2], ret[3]>>
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
Next == Down \/ Base \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Divides(d, n) == IF d = 0 THEN n = 0 ELSE Rem(n, d) = 0
Common(a, b) == {d \in 1..(2 * Max) : Divides(d, a) /\ Divides(d, b)}

Bezout == ret # <<>> => Top[1] * ret[1] + Top[2] * ret[2] = ret[3]
Divisor == ret # <<>> => Divides(ret[3], Top[1]) /\ Divides(ret[3], Top[2])
Greatest == ret # <<>> => IF Top = <<0, 0>> THEN ret[3] = 0
                          ELSE \A d \in Common(Top[1], Top[2]) : d <= Abs(ret[3])
\* What makes the recursion end, and keeps the cofactors small.
Falls == \A i \in 2..(Len(stack) - 1) : Abs(stack[i + 1][2]) < Abs(stack[i][2])
Small == ret # <<>> /\ Top[2] # 0 =>
           /\ Abs(ret[1]) <= 1 \/ Abs(ret[1]) * Abs(ret[3]) <= Abs(Top[2])
           /\ Abs(ret[2]) <= 1 \/ Abs(ret[2]) * Abs(ret[3]) <= Abs(Top[1])
Ends == <>(ret # <<>> /\ Len(stack) = 1)
=============================================================================
