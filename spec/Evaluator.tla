------------------------------ MODULE Evaluator ------------------------------
(***************************************************************************)
(* The evaluation algorithm: depth-first evaluation of the outputs in order, *)
(* with a table of computed values from which a gate is dropped as soon as   *)
(* its last reader has used it.  The counts of outstanding uses decide what  *)
(* is dropped; Pin says whether being an output counts as a use (without it  *)
(* an output that an earlier output reads is dropped before it is read out:  *)
(* the defect repaired in 9c37a11; MC_evaluator_unpinned.cfg shows it).      *)
(*                                                                          *)
(* Values are lanes: one run decides all assignments.  Circuits come from    *)
(* the enumeration in MBT (phases "ins", "nodes", "outs"), then the machine  *)
(* runs on circuit 1.  The evaluation of a module is one step: it is the     *)
(* same algorithm on the module's own tables, checked on the module itself.  *)
(***************************************************************************)
EXTENDS MBT

CONSTANT Pin

VARIABLES ev,      \* gate -> value, Undef if not in the table
          cnt,     \* gate -> outstanding uses, Undef if not in the table
          stack,   \* frames [g |-> gate, pc |-> next operand, bits |-> operand values read so far]
          result,  \* values of the outputs read out so far
          failed   \* a needed value was not in the table
evars == <<ev, cnt, stack, result, failed>>
avars == <<mvars, evars>>

M1 == circs[1]
Lanes == 2^(2^(M1.nin)) - 1
NodeOf(g) == M1.nodes[M1.gmap[g + 1][1]]
NReaders(g) == Len(Readers(M1, g))
Gates == 0..(NumGateIds(M1) - 1)
F(f, g) == f[g + 1]

EInit == /\ MInit
         /\ ev = <<>> /\ cnt = <<>> /\ stack = <<>> /\ result = <<>> /\ failed = FALSE

\* building: MBT without Emit
Building == /\ DoIn \/ InsDone \/ DoGate \/ DoConst \/ DoCall \/ NodesDone \/ DoOut \/ OutsDone \/ MainOut \/ AddMainOut
            /\ UNCHANGED evars

OutUses(g) == Cardinality({i \in 1..Len(M1.outs) : M1.outs[i] = g})

Start ==
  /\ phase = "mainouts" /\ phase' = "run"
  /\ ev'  = [i \in 1..NumGateIds(M1) |->
               IF NodeOf(i - 1).op = "in" THEN Cols(M1.nin)[NodeOf(i - 1).v + 1] ELSE Undef]
  /\ cnt' = [i \in 1..NumGateIds(M1) |->
               LET pin == IF Pin THEN OutUses(i - 1) ELSE 0
               IN  IF NodeOf(i - 1).op = "in" THEN NReaders(i - 1) + pin
                   ELSE IF pin > 0 THEN pin ELSE Undef]
  /\ UNCHANGED <<circs, stores, handles, cur, want, stack, result, failed>>

Push(s, g) == Append(s, [g |-> g, pc |-> 1, bits |-> <<>>])

ReadOut ==
  /\ phase = "run" /\ stack = <<>> /\ ~failed /\ Len(result) < Len(M1.outs)
  /\ LET g == M1.outs[Len(result) + 1]
     IN  IF F(ev, g) # Undef
         THEN result' = Append(result, F(ev, g)) /\ UNCHANGED <<ev, cnt, stack, failed>>
         ELSE IF NodeOf(g).op = "in"
         THEN failed' = TRUE /\ UNCHANGED <<ev, cnt, stack, result>>
         ELSE stack' = Push(stack, g) /\ UNCHANGED <<ev, cnt, result, failed>>
  /\ UNCHANGED mvars

Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

\* Look at operand pc of the gate on top.
Operand ==
  /\ phase = "run" /\ stack # <<>> /\ ~failed
  /\ Top.pc <= Len(NodeOf(Top.g).a)
  /\ LET x == NodeOf(Top.g).a[Top.pc]
         isCall == NodeOf(Top.g).op = "call"
         moved(bits) == [stack EXCEPT ![Len(stack)].pc = @ + 1, ![Len(stack)].bits = bits]
     IN  IF F(ev, x) = Undef
         THEN IF NodeOf(x).op = "in"
              THEN failed' = TRUE /\ UNCHANGED stack
              ELSE stack' = Push(stack, x) /\ UNCHANGED failed
         ELSE /\ stack' = moved(Append(Top.bits, F(ev, x)))
              /\ UNCHANGED failed
  /\ UNCHANGED <<mvars, ev, cnt, result>>

\* Use of operand x: decrement, and drop at zero.
Use(t, x) ==
  IF F(t.cnt, x) = 1
  THEN [ev |-> [t.ev EXCEPT ![x + 1] = Undef], cnt |-> [t.cnt EXCEPT ![x + 1] = Undef], bad |-> t.bad]
  ELSE [ev |-> t.ev, cnt |-> [t.cnt EXCEPT ![x + 1] = @ - 1],
        bad |-> t.bad \/ F(t.cnt, x) = Undef \/ F(t.cnt, x) = 0]

Add(c, g) == [c EXCEPT ![g + 1] = (IF @ = Undef THEN 0 ELSE @) + NReaders(g)]

Finish ==
  /\ phase = "run" /\ stack # <<>> /\ ~failed
  /\ Top.pc > Len(NodeOf(Top.g).a)
  /\ LET g  == Top.g
         nd == NodeOf(g)
         lost == nd.op # "call" /\ \E i \in 1..Len(nd.a) : F(ev, nd.a[i]) = Undef
         t  == FoldLeft(Use, [ev |-> ev, cnt |-> cnt, bad |-> FALSE], nd.a)
         outs == CASE nd.op = "const" -> <<IF nd.v = 1 THEN Lanes ELSE 0>>
                   [] nd.op = "call"  ->
                        OutVals(circs, stores, stores[M1.store][nd.v + 1], Top.bits, Lanes)
                   [] OTHER -> <<GateFn(nd.op, Top.bits[1], IF Len(nd.a) = 2 THEN Top.bits[2] ELSE 0, Lanes)>>
     IN  IF lost THEN failed' = TRUE /\ UNCHANGED <<ev, cnt, stack>>
         ELSE /\ ev'  = [i \in DOMAIN ev |->
                           IF i - 1 >= nd.b /\ i - 1 < nd.b + nd.n THEN outs[i - nd.b] ELSE t.ev[i]]
              /\ cnt' = FoldLeft(Add, t.cnt, [k \in 1..nd.n |-> nd.b + k - 1])
              /\ failed' = t.bad
              /\ stack' = Pop
  /\ UNCHANGED <<mvars, result>>

Running == ReadOut \/ Operand \/ Finish
ENext == Building \/ Start \/ Running
ESpec == EInit /\ [][ENext]_avars /\ WF_avars(Running)

-----------------------------------------------------------------------------
Finished == phase = "run" /\ Len(result) = Len(M1.outs)

NeverFails == ~failed
\* Values in the table are right, and the results are the function's.
TableRight ==
  phase = "run" =>
    LET v == Vals(circs, stores, 1, Cols(M1.nin), Lanes)
    IN  /\ \A g \in Gates : F(ev, g) = Undef \/ F(ev, g) = F(v, g)
        /\ \A i \in 1..Len(result) : result[i] = F(v, M1.outs[i])
\* A gate in the table that is still to be read is in it with a positive count.
CountsPositive == phase = "run" => \A g \in Gates : F(cnt, g) # Undef => F(cnt, g) >= 0
\* Evaluation ends (for every circuit and every choice of outputs).
Terminates == (phase = "run") ~> Finished
=============================================================================
