----------------------------- MODULE TraceWords -----------------------------
(***************************************************************************)
(* Validates recorded programs over words: a program allocates values of     *)
(* several configurations in one circuit and applies operations to them; the *)
(* circuit is then evaluated on several assignments ("lanes") of its inputs. *)
(*                                                                          *)
(* The state is a register file.  A register is [k, n, c, v]: its kind       *)
(* ("int", "bits", "fp", "bit"), its width, its configuration and its value  *)
(* in each lane.  Every line carries the values the real circuit gave for    *)
(* the new (or changed) register, r; "final" lines carry the values all      *)
(* registers have when the program is over.                                  *)
(***************************************************************************)
EXTENDS Registers, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
wvars == <<regs, cfgs, lanes, l>>

Init == regs = <<>> /\ cfgs = <<>> /\ lanes = 0 /\ l = 1

e == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Ok == e.st = "ok"

Same == UNCHANGED <<cfgs, lanes>>
Quiet == UNCHANGED <<regs, cfgs, lanes>>

TReset == IsEvent("reset") /\ regs' = <<>> /\ cfgs' = <<>> /\ lanes' = e.lanes

-----------------------------------------------------------------------------
(* Configurations.  A field: p odd, p < 2^r, room for the sign. *)
TCfg == /\ IsEvent("cfg") /\ Ok
        /\ cfgs' = Append(cfgs, [k |-> e.k, n |-> e.n,
                                 p |-> IF e.k = "fp" THEN e.p ELSE <<>>,
                                 r |-> IF e.k = "fp" THEN e.rexp ELSE 0])
        /\ UNCHANGED <<regs, lanes>>

\* An unrelated module is made in the circuit.
TNoise == IsEvent("noise") /\ Ok /\ Quiet

\* A new register of configuration c whose values the function F gives.
Make(c, F(_)) ==
  /\ Ok
  /\ Len(e.r) = lanes
  /\ \A t \in Lanes : e.r[t] = F(t)
  /\ NewReg(Cfg(c).k, Cfg(c).n, c, e.r)
  /\ Same

MakeBit(F(_)) ==
  /\ Ok
  /\ Len(e.r) = lanes
  /\ \A t \in Lanes : e.r[t] = F(t)
  /\ NewReg("bit", 1, 0, e.r)
  /\ Same

Change(i, F(_)) ==
  /\ Ok
  /\ Len(e.r) = lanes
  /\ \A t \in Lanes : e.r[t] = F(t)
  /\ regs' = [regs EXCEPT ![i].v = e.r]
  /\ Same

-----------------------------------------------------------------------------
(* Allocation *)
TInp == /\ IsEvent("inp")
        /\ \A t \in Lanes : IsWord(e.v[t], Cfg(e.c).n) /\ Canonical(e.c, e.v[t])
        /\ Make(e.c, LAMBDA t : e.v[t])
TBit == IsEvent("bit") /\ MakeBit(LAMBDA t : e.v[t])

\* A constant: its value w, any word of the width.
TLit == /\ IsEvent("lit") /\ IsWord(e.w, Cfg(e.c).n) /\ Canonical(e.c, e.w)
        /\ Make(e.c, LAMBDA t : e.w)
TZero == IsEvent("zero") /\ Make(e.c, LAMBDA t : Zero(Cfg(e.c).n))
TOne  == IsEvent("one") /\ Make(e.c, LAMBDA t : One(Cfg(e.c).n))

\* From bits a (registers of kind "bit"), at most as many as the width.
TPad == /\ IsEvent("pad") /\ Len(e.a) <= Cfg(e.c).n
        /\ Make(e.c, LAMBDA t : FromBits([i \in 1..Len(e.a) |-> V(e.a[i], t)], Cfg(e.c).n))
\* From the low m bits of another value, m at most the width.
TCast == /\ IsEvent("cast") /\ e.m <= Cfg(e.c).n /\ e.m <= Reg(e.a).n
         /\ Make(e.c, LAMBDA t : Trunc(Trunc(V(e.a, t), e.m), Cfg(e.c).n))
\* From bits of values: a is a list of <<register, position>>.
TGather == /\ IsEvent("gather") /\ Len(e.a) <= Cfg(e.c).n /\ Cfg(e.c).k # "fp"
           /\ \A i \in 1..Len(e.a) : e.a[i][2] < Reg(e.a[i][1]).n
           /\ Make(e.c, LAMBDA t : Gathered(e.c, e.a, t))
\* One bit of a value.
TTake == /\ IsEvent("take") /\ e.i < Reg(e.a).n
         /\ MakeBit(LAMBDA t : Bit(V(e.a, t), e.i))
TDup  == /\ IsEvent("dup") /\ Make(Reg(e.a).c, LAMBDA t : V(e.a, t))

\* A logic gate on bits.
TGate == IsEvent("bgate") /\ MakeBit(LAMBDA t : GateVal(e.k, V(e.a[1], t), V(e.a[2], t)))

-----------------------------------------------------------------------------
(* Operators *)
\* The recorded finding: field multiplication gives 0.
KnownZero(c, k) ==
  /\ Cfg(c).k = "fp" /\ k = "mul"
  /\ \A t \in Lanes : e.r[t] = Zero(Cfg(c).n)
  /\ \E t \in Lanes : e.r[t] # BinVal(c, k, V(e.a, t), V(e.b, t))
  /\ PrintT(<<"KNOWN", "mul-zero">>)

TBin == /\ IsEvent("bin") /\ Reg(e.a).c = Reg(e.b).c
        /\ LET c == Reg(e.a).c
           IN  IF Ok /\ Len(e.r) = lanes /\ KnownZero(c, e.k)
               THEN Make(c, LAMBDA t : Zero(Cfg(c).n))
               ELSE Make(c, LAMBDA t : BinVal(c, e.k, V(e.a, t), V(e.b, t)))
TAssign == /\ IsEvent("assign") /\ Reg(e.a).c = Reg(e.b).c
           /\ LET c == Reg(e.a).c
              IN  IF Ok /\ Len(e.r) = lanes /\ KnownZero(c, e.k)
                  THEN Change(e.a, LAMBDA t : Zero(Cfg(c).n))
                  ELSE Change(e.a, LAMBDA t : BinVal(c, e.k, V(e.a, t), V(e.b, t)))
TUn  == IsEvent("un") /\ Make(Reg(e.a).c, LAMBDA t : UnVal(Reg(e.a).c, e.k, V(e.a, t)))

TCmp == /\ IsEvent("cmp") /\ Reg(e.a).c = Reg(e.b).c
        /\ e.k \in {"eq", "neq"} \/ Reg(e.a).k = "int"
        /\ MakeBit(LAMBDA t : CmpVal(e.k, Reg(e.a).n, V(e.a, t), V(e.b, t)))

TShl == IsEvent("shl") /\ Reg(e.a).k = "int"
        /\ Make(Reg(e.a).c, LAMBDA t : Shl(V(e.a, t), e.s, Reg(e.a).n))
TShr == IsEvent("shr") /\ Reg(e.a).k = "int"
        /\ Make(Reg(e.a).c, LAMBDA t : Sar(V(e.a, t), e.s, Reg(e.a).n))

\* b where the select bit s is 1, a where it is 0.
TMux == /\ IsEvent("mux") /\ Reg(e.a).k = "bits"
        /\ Make(Reg(e.a).c, LAMBDA t : IF V(e.s, t) = 1 THEN V(e.b, t) ELSE V(e.a, t))

\* The Montgomery reduction of field configuration c on fresh input words v < R*p.
TMont == /\ IsEvent("mont") /\ Ok
         /\ LET cf == Cfg(e.c)
            IN  /\ \A t \in Lanes : IsWord(e.v[t], cf.n) /\ LtU(e.v[t], Shl(cf.p, cf.r, 2 * cf.n))
                /\ Len(e.r) = lanes
                /\ \A t \in Lanes : IsMont(e.r[t], e.v[t], cf.p, cf.r, cf.n)
         /\ Quiet

\* At the end: the values of all registers.
TFinal == /\ IsEvent("final") /\ Ok
          /\ Len(e.r) = Len(regs)
          /\ \A i \in 1..Len(regs) : e.r[i] = regs[i].v
          /\ Quiet

-----------------------------------------------------------------------------
(* The circuit builders for a width n chosen at run time, and the bundled    *)
(* circuits; v and r are the operands and results in each lane.              *)
BuiltOk(k, n, v, r) ==
  CASE k = "add" -> r = <<Add(v[1], v[2], n)>>
    [] k = "sub" -> r = <<Sub(v[1], v[2], n)>>
    [] k = "mul" -> r = <<Mul(v[1], v[2], n)>>
    [] k = "mul_extend" -> r = <<MulExt(v[1], v[2], n)>>
    [] k = "and" -> r = <<BAnd(v[1], v[2])>>
    [] k = "or"  -> r = <<BOr(v[1], v[2])>>
    [] k = "xor" -> r = <<BXor(v[1], v[2])>>
    [] k = "not" -> r = <<Compl(v[1], n)>>
    [] k \in {"eq", "neq", "less", "le", "larger", "ge"} -> r = << <<CmpVal(k, n, v[1], v[2])>> >>
    \* 64-bit circuits
    [] k = "adder64" -> r = <<Add(v[1], v[2], 64)>>
    [] k = "sub64"   -> r = <<Sub(v[1], v[2], 64)>>
    [] k = "neg64"   -> r = <<Neg(v[1], 64)>>
    [] k = "mult2_64" -> LET m == MulExt(v[1], v[2], 64)
                         IN  r = <<Slice(m, 64, 64), Trunc(m, 64)>>
    [] k = "udivide64" -> Len(r) = 1 /\ IsWord(r[1], 64) /\ (v[2] # Zero(64) => IsQuotU(r[1], v[1], v[2], 64))
    [] k = "divide64"  -> Len(r) = 1 /\ IsWord(r[1], 64) /\ (v[2] # Zero(64) => IsQuotS(r[1], v[1], v[2], 64))

TBuilt == /\ IsEvent("built") /\ Ok
          /\ Len(e.r) = Len(e.v)
          /\ \A t \in 1..Len(e.v) : BuiltOk(e.k, e.n, e.v[t], e.r[t])
          /\ Quiet

-----------------------------------------------------------------------------
Next == \/ TReset \/ TCfg \/ TNoise \/ TInp \/ TBit \/ TLit \/ TZero \/ TOne \/ TPad \/ TCast \/ TGather \/ TTake \/ TDup \/ TGate
        \/ TBin \/ TAssign \/ TUn \/ TCmp \/ TShl \/ TShr \/ TMux \/ TMont \/ TFinal \/ TBuilt

TraceSpec == Init /\ [][Next]_wvars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
