------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* The algorithm of the Bristol writer: a depth-first walk from the outputs   *)
(* that gives each gate it has to compute the next wire and a line, going     *)
(* into the modules that are called with a wire table of their own, and       *)
(* copies the outputs to the end where they are not there already.            *)
(*                                                                          *)
(* Circuits come from the enumeration in MBT; then the machine runs on        *)
(* circuit 1.  One action is one visit of a gate, so that what is checked is  *)
(* that every intermediate state is right: the wires given out so far carry   *)
(* the values of the gates they were given to, at every level of inlining.    *)
(***************************************************************************)
EXTENDS MBT

CONSTANT AllOutputs   \* a call gives wires to all its outputs, not only to the one asked for on

VARIABLES frames,  \* the circuits being inlined, the outermost first
          lines,   \* gate lines written so far
          nw,      \* next wire
          lastc,   \* next wire of a constant
          val,     \* wire -> value (of what was written, not of what was meant)
          bad      \* an operand had no wire
wvars == <<frames, lines, nw, lastc, val, bad>>
avars == <<mvars, wvars>>

M1 == circs[1]
Lanes == 2^(2^(M1.nin)) - 1
Circ1(f) == circs[f.ci]
NodeIn(ci, g) == circs[ci].nodes[circs[ci].gmap[g + 1][1]]
F(f, g) == f[g + 1]
Callee(ci, nd) == stores[circs[ci].store][nd.v + 1]

WInit == /\ MInit
         /\ frames = <<>> /\ lines = <<>> /\ nw = 0 /\ lastc = 0 /\ val = <<>> /\ bad = FALSE

Building == /\ DoIn \/ InsDone \/ DoGate \/ DoConst \/ DoCall \/ NodesDone \/ DoOut \/ OutsDone \/ MainOut \/ AddMainOut
            /\ UNCHANGED wvars

\* A circuit is entered with the wires of its inputs: its constants get theirs.
Enter(ci, wires) ==
  LET c  == circs[ci]
      ig == InputGates(c)
      cg == ConstGates(c)
      w0 == [g \in 1..NumGateIds(c) |-> Undef]
      w1 == FoldLeft(LAMBDA t, i : [t EXCEPT ![ig[i] + 1] = wires[i]], w0, [i \in 1..Len(ig) |-> i])
      w2 == FoldLeft(LAMBDA t, i : [t EXCEPT ![cg[i] + 1] = lastc + i - 1], w1, [i \in 1..Len(cg) |-> i])
  IN  [ci |-> ci, w |-> w2, pass |-> 1, i |-> 1, todo |-> <<>>,
       \* what the gates of this copy are worth, by definition
       vals |-> Vals(circs, stores, ci, [i \in 1..Len(wires) |-> val[wires[i] + 1]], Lanes)]
ConstVals(ci) == LET cg == ConstGates(circs[ci]) IN [i \in 1..Len(cg) |-> IF NodeIn(ci, cg[i]).v = 1 THEN Lanes ELSE 0]
\* (val as it is after the constants of ci have their wires)
Entered(ci) == FoldLeft(LAMBDA t, i : [t EXCEPT ![lastc + i] = ConstVals(ci)[i]], val,
                        [i \in 1..Len(ConstGates(circs[ci])) |-> i])

Prepare ==
  /\ phase = "mainouts" /\ phase' = "prepared"
  /\ nw' = M1.nin + M1.nconst /\ lastc' = M1.nin
  /\ val' = Cols(M1.nin) \o [i \in 1..M1.nconst |-> Undef]
  /\ UNCHANGED <<circs, stores, handles, cur, want, frames, lines, bad>>
Start ==
  /\ phase = "prepared" /\ phase' = "write"
  /\ frames' = <<Enter(1, [i \in 1..M1.nin |-> i - 1])>>
  /\ val' = Entered(1) /\ lastc' = lastc + Len(ConstGates(M1))
  /\ UNCHANGED <<circs, stores, handles, cur, want, lines, nw, bad>>

Here == frames[Len(frames)]
Todo == Here.todo
Item == Todo[Len(Todo)]
NodeH(g) == NodeIn(Here.ci, g)
OutsH == Circ1(Here).outs
Set(f) == frames' = [frames EXCEPT ![Len(frames)] = f]
Push(f, g, self) == [f EXCEPT !.todo = Append(@, [g |-> g, pc |-> 1, self |-> self])]
Pop(f) == [f EXCEPT !.todo = SubSeq(@, 1, Len(@) - 1)]
Same == UNCHANGED <<mvars, lines, nw, lastc, val>>

\* First the operands of all outputs, then the outputs themselves.
NextOutput ==
  /\ phase = "write" /\ frames # <<>> /\ ~bad /\ Todo = <<>> /\ Here.pass <= 2
  /\ IF Here.i > Len(OutsH) THEN Set([Here EXCEPT !.pass = @ + 1, !.i = 1])
     ELSE LET g == OutsH[Here.i]
              on == [Here EXCEPT !.i = @ + 1]
          IN  IF Here.pass = 1 THEN Set(Push(on, g, FALSE))
              ELSE IF F(Here.w, g) = Undef THEN Set(Push(on, g, TRUE)) ELSE Set(on)
  /\ UNCHANGED bad /\ Same

Operand ==
  /\ phase = "write" /\ frames # <<>> /\ ~bad /\ Todo # <<>>
  /\ Item.pc <= Len(NodeH(Item.g).a)
  /\ LET x == NodeH(Item.g).a[Item.pc]
     IN  IF F(Here.w, x) = Undef
         THEN Set(Push(Here, x, TRUE)) /\ bad' = (NodeH(x).op \in {"in", "const"})
         ELSE Set([Here EXCEPT !.todo[Len(Todo)].pc = @ + 1]) /\ UNCHANGED bad
  /\ Same

Ready(op) == /\ phase = "write" /\ frames # <<>> /\ ~bad /\ Todo # <<>>
             /\ Item.pc > Len(NodeH(Item.g).a)
             /\ op = (IF ~Item.self THEN "skip" ELSE IF NodeH(Item.g).op = "call" THEN "call" ELSE "gate")

Skip == /\ Ready("skip") /\ Set(Pop(Here)) /\ UNCHANGED bad /\ Same

TypeOf(op) == CASE op = "not" -> "INV" [] op = "xor" -> "XOR" [] op = "and" -> "AND" [] op = "or" -> "OR"
WriteGate ==
  /\ Ready("gate")
  /\ LET nd == NodeH(Item.g)
         a  == [i \in 1..Len(nd.a) |-> F(Here.w, nd.a[i])]
     IN  /\ lines' = Append(lines, [t |-> TypeOf(nd.op), a |-> a, o |-> <<nw>>])
         /\ val' = Append(val, GateFn(nd.op, val[a[1] + 1], IF Len(a) = 2 THEN val[a[2] + 1] ELSE 0, Lanes))
         /\ nw' = nw + 1
         /\ Set([Pop(Here) EXCEPT !.w[Item.g + 1] = nw])
  /\ UNCHANGED <<mvars, lastc, bad>>

GoInto ==
  /\ Ready("call")
  /\ LET nd == NodeH(Item.g)
         ci == Callee(Here.ci, nd)
     IN  /\ frames' = Append(frames, Enter(ci, [i \in 1..Len(nd.a) |-> F(Here.w, nd.a[i])]))
         /\ val' = Entered(ci) /\ lastc' = lastc + Len(ConstGates(circs[ci]))
  /\ UNCHANGED <<mvars, lines, nw, bad>>

Below == frames[Len(frames) - 1]
Return ==
  /\ phase = "write" /\ ~bad /\ Len(frames) > 1 /\ Todo = <<>> /\ Here.pass = 3
  /\ LET g  == Below.todo[Len(Below.todo)].g
         nd == NodeIn(Below.ci, g)
         gs == {k \in 1..nd.n : AllOutputs \/ nd.b + k - 1 >= g}
         w  == [x \in DOMAIN Below.w |->
                  IF x - nd.b \in gs THEN F(Here.w, OutsH[x - nd.b]) ELSE Below.w[x]]
     IN  frames' = Append(SubSeq(frames, 1, Len(frames) - 2), [Pop(Below) EXCEPT !.w = w])
  /\ UNCHANGED bad /\ Same

\* The outputs are the last wires, or are copied there.
CopyOutputs ==
  /\ phase = "write" /\ ~bad /\ Len(frames) = 1 /\ Todo = <<>> /\ Here.pass = 3
  /\ phase' = "written"
  /\ LET n == Len(M1.outs)
         o == [i \in 1..n |-> F(Here.w, M1.outs[i])]
     IN  IF n <= nw /\ o = [i \in 1..n |-> nw - n + i - 1]
         THEN UNCHANGED <<lines, nw, val>>
         ELSE /\ lines' = lines \o [i \in 1..n |-> [t |-> "EQW", a |-> <<o[i]>>, o |-> <<nw + i - 1>>]]
              /\ val' = val \o [i \in 1..n |-> val[o[i] + 1]]
              /\ nw' = nw + n
  /\ UNCHANGED <<circs, stores, handles, cur, want, frames, lastc, bad>>

Running == Prepare \/ Start \/ NextOutput \/ Operand \/ Skip \/ WriteGate \/ GoInto \/ Return \/ CopyOutputs
WNext == Building \/ Running
WSpec == WInit /\ [][WNext]_avars /\ WF_avars(NextOutput \/ Operand \/ Skip \/ WriteGate \/ GoInto \/ Return \/ CopyOutputs)

-----------------------------------------------------------------------------
NoOperandMissing == ~bad
\* At every level: a gate's wire carries the gate's value.
WiresRight ==
  \A k \in DOMAIN frames :
    \A g \in DOMAIN frames[k].w :
      frames[k].w[g] # Undef => /\ frames[k].w[g] < nw
                                /\ val[frames[k].w[g] + 1] = frames[k].vals[g]
\* Constants never take more wires than were kept for them.
ConstantsFit == phase \in {"write", "written"} => lastc <= M1.nin + M1.nconst
\* No gate of the hierarchy is written twice.
WrittenOnce == phase \in {"write", "written"} =>
                 Len(SelectSeq(lines, LAMBDA l : l.t # "EQW")) <= M1.ngate
\* What comes out is what Bristol asks of a written file.
Given == [i \in 1..M1.nconst |-> IF val[M1.nin + i] = Lanes THEN 1 ELSE 0]
WrittenRight ==
  phase = "written" =>
    \A first \in 0..(M1.nin + M1.nconst) :
      LET f == [ng |-> Len(lines), nw |-> nw, ins |-> <<first, M1.nin + M1.nconst - first>>,
                outs |-> <<Len(M1.outs)>>, lines |-> lines]
      IN  /\ WrittenShape(M1, f, first, Given)
          /\ FileOuts(f, Cols(M1.nin) \o ConstLanes(Given, Lanes), Lanes)
               = OutVals(circs, stores, 1, Cols(M1.nin), Lanes)
Ends == (phase = "write") ~> (phase = "written")
=============================================================================
