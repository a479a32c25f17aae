------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* Enumerates *all* short programs over integers, bit vectors and field      *)
(* elements of small width, each on *all* values of its inputs, and writes    *)
(* each with the values Words predicts; the driver replays them on the        *)
(* library.                                                                  *)
(***************************************************************************)
EXTENDS Registers, Json, CSV, IOUtils, TLC

CONSTANTS Setups,   \* configurations and inputs the programs start from
          Places,   \* 0: the program's circuit; 1: a module of it
          MaxOps,
          Ops

VARIABLES hist, todo
pvars == <<regs, cfgs, lanes, hist, todo>>

-----------------------------------------------------------------------------
(* Setups: configurations; inputs, as configuration numbers (0: a bit).      *)
OfInt(n)  == [k |-> "int", n |-> n, p |-> <<>>, r |-> 0, base |-> 0]
OfBits(n) == [k |-> "bits", n |-> n, p |-> <<>>, r |-> 0, base |-> 0]
\* over the integers of configuration b
OfFp(n, p, r, b) == [k |-> "fp", n |-> n, p |-> <<p>>, r |-> r, base |-> b]

Setup(s) ==
  CASE s = "int1"  -> [c |-> <<OfInt(1)>>, i |-> <<1, 1>>]
    [] s = "int2"  -> [c |-> <<OfInt(2)>>, i |-> <<1, 1>>]
    [] s = "int3"  -> [c |-> <<OfInt(3)>>, i |-> <<1, 1>>]
    [] s = "int3x" -> [c |-> <<OfInt(3)>>, i |-> <<1>>]
    [] s = "int5x" -> [c |-> <<OfInt(5)>>, i |-> <<1>>]
    [] s = "bits1" -> [c |-> <<OfBits(1)>>, i |-> <<1, 1, 0>>]
    [] s = "bits2" -> [c |-> <<OfBits(2)>>, i |-> <<1, 1, 0>>]
    [] s = "bits3" -> [c |-> <<OfBits(3)>>, i |-> <<1, 0>>]
    \* different kinds and widths side by side, made in either order
    [] s = "mixed" -> [c |-> <<OfInt(2), OfBits(2)>>, i |-> <<1, 2, 0>>]
    [] s = "mixed2" -> [c |-> <<OfBits(3), OfInt(2)>>, i |-> <<2, 1>>]
    [] s = "two"   -> [c |-> <<OfInt(2), OfInt(3)>>, i |-> <<1, 2>>]
    [] s = "twice" -> [c |-> <<OfInt(2), OfInt(2)>>, i |-> <<1, 2>>]
    [] s = "fp3"   -> [c |-> <<OfInt(4), OfFp(4, 3, 2, 1)>>, i |-> <<2, 2>>]
    [] s = "fp7"   -> [c |-> <<OfInt(5), OfFp(5, 7, 3, 1)>>, i |-> <<2, 2>>]
    [] s = "fp35"  -> [c |-> <<OfInt(5), OfFp(5, 3, 2, 1), OfFp(5, 5, 4, 1)>>, i |-> <<2, 3>>]

Size(S, i) == IF i = 0 THEN 2 ELSE IF S.c[i].k = "fp" THEN S.c[i].p[1] ELSE 2^S.c[i].n
Below(S, j) == FoldLeft(LAMBDA a, x : a * x, 1, [q \in 1..(j - 1) |-> Size(S, S.i[q])])
NumLanes(S) == Below(S, Len(S.i) + 1)
InVal(S, j, t) == LET v == ((t - 1) \div Below(S, j)) % Size(S, S.i[j])
                  IN  IF S.i[j] = 0 THEN v ELSE <<v>>
InVals(S, j) == [t \in 1..NumLanes(S) |-> InVal(S, j, t)]

CfgEv(x) == IF x.k = "fp"
            THEN [op |-> "cfg", k |-> "fp", n |-> x.n, base |-> x.base, p |-> x.p, rexp |-> x.r, st |-> "ok"]
            ELSE [op |-> "cfg", k |-> x.k, n |-> x.n, st |-> "ok"]
InEv(S, j) == IF S.i[j] = 0 THEN [op |-> "bit", v |-> InVals(S, j), r |-> InVals(S, j), st |-> "ok"]
              ELSE [op |-> "inp", c |-> S.i[j], v |-> InVals(S, j), r |-> InVals(S, j), st |-> "ok"]

PInit ==
  \E s \in Setups : \E place \in Places :
    LET S == Setup(s)
    IN  /\ cfgs = [i \in 1..Len(S.c) |-> [k |-> S.c[i].k, n |-> S.c[i].n, p |-> S.c[i].p, r |-> S.c[i].r]]
        /\ lanes = NumLanes(S)
        /\ regs = [j \in 1..Len(S.i) |->
                     IF S.i[j] = 0 THEN [k |-> "bit", n |-> 1, c |-> 0, v |-> InVals(S, j)]
                     ELSE [k |-> S.c[S.i[j]].k, n |-> S.c[S.i[j]].n, c |-> S.i[j], v |-> InVals(S, j)]]
        /\ hist = << [op |-> "reset", lanes |-> NumLanes(S), place |-> place, st |-> "ok"] >>
                  \o [i \in 1..Len(S.c) |-> CfgEv(S.c[i])] \o [j \in 1..Len(S.i) |-> InEv(S, j)]
        /\ todo = MaxOps

-----------------------------------------------------------------------------
R == DOMAIN regs
Of(ks) == {i \in R : regs[i].k \in ks}
BitRegs == {i \in R : regs[i].k = "bit"}
May(op) == op \in Ops /\ todo > 0
Same == UNCHANGED <<cfgs, lanes>>

\* A new register with values F, made by call ev.
Made(ev, c, F(_)) ==
  \E v \in {[t \in Lanes |-> F(t)]} :
    /\ IF c = 0 THEN NewReg("bit", 1, 0, v) ELSE NewReg(Cfg(c).k, Cfg(c).n, c, v)
    /\ hist' = Append(hist, ev @@ [r |-> v, st |-> "ok"])
    /\ todo' = todo - 1
    /\ Same
Changed(ev, i, F(_)) ==
  \E v \in {[t \in Lanes |-> F(t)]} :
    /\ regs' = [regs EXCEPT ![i].v = v]
    /\ hist' = Append(hist, ev @@ [r |-> v, st |-> "ok"])
    /\ todo' = todo - 1
    /\ Same

BinOps(k) == CASE k = "int" -> {"add", "sub", "mul"} [] k = "bits" -> {"and", "or", "xor"} [] k = "fp" -> {"add", "sub"}
CmpOps(k) == IF k = "int" THEN {"eq", "neq", "less", "le", "larger", "ge"} ELSE {"eq", "neq"}
All == {"int", "bits", "fp"}

PBin == /\ May("bin")
        /\ \E a, b \in Of(All) : /\ Reg(a).c = Reg(b).c
             /\ \E k \in BinOps(Reg(a).k) :
                  Made([op |-> "bin", k |-> k, a |-> a, b |-> b], Reg(a).c,
                       LAMBDA t : BinVal(Reg(a).c, k, V(a, t), V(b, t)))
PAssign == /\ May("assign")
           /\ \E a, b \in Of(All) : /\ Reg(a).c = Reg(b).c
                /\ \E k \in BinOps(Reg(a).k) :
                     Changed([op |-> "assign", k |-> k, a |-> a, b |-> b], a,
                             LAMBDA t : BinVal(Reg(a).c, k, V(a, t), V(b, t)))
PUn == /\ May("un")
       /\ \E a \in Of(All) : LET k == IF Reg(a).k = "bits" THEN "not" ELSE "neg"
                                IN  Made([op |-> "un", k |-> k, a |-> a], Reg(a).c,
                                         LAMBDA t : UnVal(Reg(a).c, k, V(a, t)))
PCmp == /\ May("cmp")
        /\ \E a, b \in Of(All) : /\ Reg(a).c = Reg(b).c
             /\ \E k \in CmpOps(Reg(a).k) :
                  Made([op |-> "cmp", k |-> k, a |-> a, b |-> b], 0,
                       LAMBDA t : CmpVal(k, Reg(a).n, V(a, t), V(b, t)))
PShift == /\ May("shift")
          /\ \E a \in Of({"int"}) : \E s \in 0..(Reg(a).n + 1) :
               \/ Made([op |-> "shl", a |-> a, s |-> s], Reg(a).c, LAMBDA t : Shl(V(a, t), s, Reg(a).n))
               \/ Made([op |-> "shr", a |-> a, s |-> s], Reg(a).c, LAMBDA t : Sar(V(a, t), s, Reg(a).n))
PMux == /\ May("mux")
        /\ \E a, b \in Of({"bits"}) : \E s \in BitRegs :
             /\ Reg(a).c = Reg(b).c
             /\ Made([op |-> "mux", a |-> a, b |-> b, s |-> s], Reg(a).c,
                     LAMBDA t : IF V(s, t) = 1 THEN V(b, t) ELSE V(a, t))
PDup == May("dup") /\ \E a \in Of(All) : Made([op |-> "dup", a |-> a], Reg(a).c, LAMBDA t : V(a, t))
PConst == /\ May("const")
          /\ \E c \in DOMAIN cfgs : /\ Cfg(c).k # "bits"
               /\ \/ Made([op |-> "zero", c |-> c], c, LAMBDA t : Zero(Cfg(c).n))
                  \/ Made([op |-> "one", c |-> c], c, LAMBDA t : One(Cfg(c).n))
                  \/ \E w \in 0..((IF Cfg(c).k = "fp" THEN Cfg(c).p[1] ELSE 2^Cfg(c).n) - 1) :
                       Made([op |-> "lit", c |-> c, w |-> <<w>>], c, LAMBDA t : <<w>>)
PTake == /\ May("take")
         /\ \E a \in Of(All) : \E i \in 0..(Reg(a).n - 1) :
              Made([op |-> "take", a |-> a, i |-> i], 0, LAMBDA t : Bit(V(a, t), i))
PCast == /\ May("cast")
         /\ \E c \in DOMAIN cfgs : \E a \in Of(All) :
              /\ Cfg(c).k # "fp"
              /\ \E m \in 0..(IF Cfg(c).n < Reg(a).n THEN Cfg(c).n ELSE Reg(a).n) :
                   Made([op |-> "cast", c |-> c, a |-> a, m |-> m], c,
                        LAMBDA t : Trunc(Trunc(V(a, t), m), Cfg(c).n))
\* All arrangements of at most n bits of the registers.
PGather == /\ May("gather")
           /\ \E c \in DOMAIN cfgs :
                /\ Cfg(c).k # "fp"
                /\ \E m \in 0..Cfg(c).n :
                     \E f \in [1..m -> {<<a, i>> \in R \X (0..4) : i < Reg(a).n}] :
                       Made([op |-> "gather", c |-> c, a |-> <<>> \o f], c, LAMBDA t : Gathered(c, f, t))
PGate == /\ May("bgate")
         /\ \E x, y \in BitRegs : \E k \in {"not", "xor", "and", "or"} :
              /\ k = "not" => x = y
              /\ Made([op |-> "bgate", k |-> k, a |-> <<x, y>>], 0, LAMBDA t : GateVal(k, V(x, t), V(y, t)))

Emit == /\ todo = 0
        /\ CSVWrite("%1$s", <<ToJson(Append(hist, [op |-> "final", st |-> "ok",
                                                     r |-> [i \in 1..Len(regs) |-> regs[i].v]]))>>, IOEnv.BEHAVIOURS)
        /\ todo' = -1
        /\ UNCHANGED <<regs, cfgs, lanes, hist>>

PNext == PBin \/ PAssign \/ PUn \/ PCmp \/ PShift \/ PMux \/ PDup \/ PConst \/ PTake \/ PCast \/ PGather \/ PGate \/ Emit
PSpec == PInit /\ [][PNext]_pvars

-----------------------------------------------------------------------------
(* The registers are words of their configuration; residues are canonical.   *)
Typed == \A i \in R : \A t \in Lanes :
           IF Reg(i).k = "bit" THEN V(i, t) \in {0, 1}
           ELSE IsWord(V(i, t), Reg(i).n) /\ Canonical(Reg(i).c, V(i, t))
\* A call gives one new value or changes its target; everything else keeps its value.
Preserving == [][\A i \in R : \/ regs'[i] = regs[i]
                              \/ /\ Len(regs') = Len(regs)
                                 /\ \A j \in R : regs'[j] # regs[j] => j = i]_pvars
=============================================================================
