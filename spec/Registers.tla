------------------------------ MODULE Registers ------------------------------
(***************************************************************************)
(* The state of a program over words: configurations (a kind, a width, for a *)
(* field also p and r with p odd, p < 2^r) and registers [k, n, c, v]: kind   *)
(* ("int", "bits", "fp", "bit"), width, configuration, and the value in each  *)
(* lane (an assignment of the circuit's inputs).                             *)
(***************************************************************************)
EXTENDS Words

VARIABLES regs, cfgs, lanes
rvars == <<regs, cfgs, lanes>>

Cfg(i) == cfgs[i]
Reg(i) == regs[i]
V(i, t) == regs[i].v[t]
Lanes == 1..lanes

\* Field values are residues.
Canonical(c, v) == Cfg(c).k = "fp" => LtU(v, Cfg(c).p)

\* Bit i of register a in lane t.
BitOf(a, i, t) == IF Reg(a).k = "bit" THEN V(a, t) ELSE Bit(V(a, t), i)

NewReg(k, n, c, v) == regs' = Append(regs, [k |-> k, n |-> n, c |-> c, v |-> v])

-----------------------------------------------------------------------------
(* Operators.  a, b: registers of configuration c. *)
BinVal(c, k, x, y) ==
  LET n == Cfg(c).n
      p == Cfg(c).p
  IN  CASE Cfg(c).k = "int" ->
             (CASE k = "add" -> Add(x, y, n) [] k = "sub" -> Sub(x, y, n) [] k = "mul" -> Mul(x, y, n))
        [] Cfg(c).k = "bits" ->
             (CASE k = "and" -> BAnd(x, y) [] k = "or" -> BOr(x, y) [] k = "xor" -> BXor(x, y))
        [] Cfg(c).k = "fp" ->
             (CASE k = "add" -> FAdd(x, y, p, n) [] k = "sub" -> FSub(x, y, p, n)
                [] k = "mul" -> FMul(x, y, p, Cfg(c).r, n))
UnVal(c, k, x) ==
  CASE Cfg(c).k = "int" /\ k = "neg" -> Neg(x, Cfg(c).n)
    [] Cfg(c).k = "bits" /\ k = "not" -> Compl(x, Cfg(c).n)
    [] Cfg(c).k = "fp" /\ k = "neg" -> FNeg(x, Cfg(c).p, Cfg(c).n)


B2I(x) == IF x THEN 1 ELSE 0
CmpVal(k, n, x, y) ==
  B2I(CASE k = "eq" -> x = y [] k = "neq" -> x # y
        [] k = "less" -> LtS(x, y, n) [] k = "le" -> ~LtS(y, x, n)
        [] k = "larger" -> LtS(y, x, n) [] k = "ge" -> ~LtS(x, y, n))

\* A logic gate on two bits.
GateVal(k, x, y) ==
  CASE k = "not" -> 1 - x
    [] k = "xor" -> (x + y) % 2
    [] k = "and" -> x * y
    [] k = "or"  -> (x + y + x * y) % 2

\* The value of a register of configuration c made from bits, given as <<register, position>> pairs.
Gathered(c, a, t) == FromBits([i \in 1..Len(a) |-> BitOf(a[i][1], a[i][2], t)], Cfg(c).n)
=============================================================================
