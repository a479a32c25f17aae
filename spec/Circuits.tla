------------------------------ MODULE Circuits ------------------------------
(***************************************************************************)
(* The abstract machine behind the circuit builder of circuit_converters:   *)
(* circuits, module registries ("stores"), handles, and every operation on  *)
(* them.  One action per public operation (the library is sequential, so    *)
(* the linearization point of an operation is its return).                  *)
(*                                                                          *)
(*  - A circuit is a sequence of nodes in creation order.  A node produces  *)
(*    n gates (a module call produces one per module output, every other    *)
(*    node exactly one); gate identifiers are 0,1,2,... in creation order.  *)
(*  - A store maps module identifiers 0,1,2,... to circuits.  Sub-circuits  *)
(*    and copies share the store of the circuit they come from.             *)
(*  - A handle denotes a circuit; several handles may denote the same one.  *)
(*    Dropping a handle changes no circuit: a registry keeps its modules.    *)
(*                                                                          *)
(* Bits are evaluated in "lanes": a value is a natural number below 2^L     *)
(* whose bit k is the bit in the k-th of L simultaneous input assignments   *)
(* (M == 2^L - 1 is the all-ones lane word).  With L = 2^nin and the        *)
(* columns of the truth table as inputs one evaluation decides *all*        *)
(* assignments of a circuit.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bitwise, Vec

VARIABLES circs,    \* Seq of circuit records
          stores,   \* Seq of (Seq of circuit index): module registries
          handles   \* Seq of circuit index; 0: the handle has been dropped

cvars == <<circs, stores, handles>>

\* P itself; inside an action it makes TLC evaluate P as an expression instead of
\* treating each instance of a quantifier in it as a conjunct of the action.
Holds(P) == P = TRUE

\* F(v), with v evaluated once (TLC evaluates a LET or an argument again in each
\* application of a function in which it occurs).
Force(F(_), v) == FoldLeft(LAMBDA acc, x : F(x), <<>>, <<v>>)

Undef == -1         \* the value of a gate that needs a gate that does not exist

-----------------------------------------------------------------------------
(* Circuits as values *)

EmptyCircuit(s) ==
  [ store |-> s, nodes |-> <<>>, gmap |-> <<>>, outs |-> <<>>,
    nin |-> 0, nconst |-> 0, ngate |-> 0, nwire |-> 0, frozen |-> FALSE ]

NumGateIds(c) == Len(c.gmap)
HasGate(c, g) == g >= 0 /\ g < Len(c.gmap)

\* Append a node with n result gates.
AddNode(c, op, a, v, n) ==
  [ c EXCEPT !.nodes = Append(@, [op |-> op, a |-> a, v |-> v, n |-> n, b |-> Len(c.gmap)]),
             !.gmap  = @ \o [i \in 1..n |-> <<Len(c.nodes) + 1, i - 1>>] ]

Unary  == {"not"}
Binary == {"xor", "and", "or"}

CInput(c)       == [AddNode(c, "in", <<>>, c.nin, 1) EXCEPT !.nin = @ + 1, !.nwire = @ + 1]
CConst(c, v)    == [AddNode(c, "const", <<>>, v, 1) EXCEPT !.nconst = @ + 1, !.nwire = @ + 1]
CGate(c, op, a) == [AddNode(c, op, a, 0, 1) EXCEPT !.ngate = @ + 1, !.nwire = @ + 1]
CEquiv(c, a, b) == LET c1 == CGate(c, "xor", <<a, b>>)
                   IN  CGate(c1, "not", <<NumGateIds(c)>>)
CIdent(c, a)    == LET c1 == CGate(c, "not", <<a>>)
                   IN  CGate(c1, "not", <<NumGateIds(c)>>)
COutput(c, g)   == [c EXCEPT !.outs = Append(@, g)]
\* m is the circuit record of the module, mid its identifier in c's store.
CCall(c, mid, m, args) ==
  [AddNode(c, "call", args, mid, Len(m.outs))
     EXCEPT !.nconst = @ + m.nconst,
            !.ngate  = @ + m.ngate,
            !.nwire  = @ + (m.nwire - m.nin)]

-----------------------------------------------------------------------------
(* Denotation.  Vals gives the sequence of the values of all gates of        *)
(* circuit number ci for input lanes ins.                                    *)

GateFn(op, x, y, M) ==
  CASE op = "not" -> M - x
    [] op = "xor" -> x ^^ y
    [] op = "and" -> x & y
    [] op = "or"  -> x | y

RECURSIVE Vals(_, _, _, _, _)
Vals(cs, st, ci, ins, M) ==
  LET c == cs[ci]
      At(acc, g) == IF g < acc.n THEN VAt(acc, g) ELSE Undef
      Step(acc, nd) ==
        CASE nd.op = "in"    -> VPush(acc, ins[nd.v + 1])
          [] nd.op = "const" -> VPush(acc, IF nd.v = 1 THEN M ELSE 0)
          [] nd.op = "not"   -> LET x == At(acc, nd.a[1])
                                IN  VPush(acc, IF x = Undef THEN Undef ELSE M - x)
          [] nd.op = "call"  ->
               LET args == [i \in 1..Len(nd.a) |-> At(acc, nd.a[i])]
                   bad  == \E i \in 1..Len(nd.a) : args[i] = Undef
                   mi   == st[c.store][nd.v + 1]
                   mv   == Vals(cs, st, mi, <<>> \o args, M)
                   mo   == cs[mi].outs
               IN  VPushAll(acc, IF bad THEN [i \in 1..nd.n |-> Undef]
                                 ELSE [i \in 1..nd.n |-> mv[mo[i] + 1]])
          [] OTHER -> LET x == At(acc, nd.a[1])
                          y == At(acc, nd.a[2])
                      IN  VPush(acc, IF x = Undef \/ y = Undef THEN Undef ELSE GateFn(nd.op, x, y, M))
  IN  VSeq(FoldLeft(Step, VEmpty, c.nodes))

OutVals(cs, st, ci, ins, M) ==
  LET Pick(v) == <<>> \o [i \in 1..Len(cs[ci].outs) |-> v[cs[ci].outs[i] + 1]]
  IN  Force(Pick, Vals(cs, st, ci, ins, M))

-----------------------------------------------------------------------------
(* Structural sizes of the circuit with every call replaced by a copy of     *)
(* the module -- the definition the incremental counters must agree with.    *)

RECURSIVE FlatCount(_, _, _, _)
FlatCount(cs, st, ci, kinds) ==
  LET Step(acc, nd) ==
        acc + IF nd.op = "call"
              THEN FlatCount(cs, st, st[cs[ci].store][nd.v + 1], kinds)
              ELSE IF nd.op \in kinds THEN 1 ELSE 0
  IN  FoldLeft(Step, 0, cs[ci].nodes)

FlatGates(cs, st, ci)  == FlatCount(cs, st, ci, Unary \cup Binary)
FlatConsts(cs, st, ci) == FlatCount(cs, st, ci, {"const"})
FlatWires(cs, st, ci)  == cs[ci].nin + FlatConsts(cs, st, ci) + FlatGates(cs, st, ci)

-----------------------------------------------------------------------------
(* Observations *)

\* The gate with identifier g, as read back.
GateView(c, st, g) ==
  LET nd == c.nodes[c.gmap[g + 1][1]]
      k  == c.gmap[g + 1][2]
  IN  CASE nd.op = "in"    -> <<0, nd.v>>
        [] nd.op = "const" -> <<1, nd.v>>
        [] nd.op = "not"   -> <<2>> \o nd.a
        [] nd.op = "xor"   -> <<3>> \o nd.a
        [] nd.op = "and"   -> <<4>> \o nd.a
        [] nd.op = "or"    -> <<5>> \o nd.a
        [] nd.op = "call"  -> <<6, nd.v, k, Len(nd.a), nd.n>> \o nd.a

GateViews(c, st) == [i \in 1..NumGateIds(c) |-> GateView(c, st, i - 1)]

\* How many operands and results each gate says it has (a call: those of the module).
GateArities(c) == [i \in 1..NumGateIds(c) |-> LET nd == c.nodes[c.gmap[i][1]] IN <<Len(nd.a), nd.n>>]

InputGates(c)  == LET s == SelectSeq(c.nodes, LAMBDA nd : nd.op = "in")
                  IN  [i \in 1..Len(s) |-> s[i].b]
ConstGates(c)  == LET s == SelectSeq(c.nodes, LAMBDA nd : nd.op = "const")
                  IN  [i \in 1..Len(s) |-> s[i].b]

\* The readers of gate g, once per operand position (for a call: per operand
\* position and result gate), in creation order.
Readers(c, g) ==
  LET Step(acc, nd) ==
        LET pos == Cardinality({i \in 1..Len(nd.a) : nd.a[i] = g})
        IN  acc \o [j \in 1..(pos * nd.n) |-> nd.b + ((j - 1) % nd.n)]
  IN  FoldLeft(Step, <<>>, SelectSeq(c.nodes, LAMBDA nd : \E i \in 1..Len(nd.a) : nd.a[i] = g))

Sizes(c) == <<c.nin, Len(c.outs), c.nwire, c.ngate, c.nconst>>

\* Equality of flat circuits: same gates (hence same inputs, constants), same outputs.
SameCircuit(c, d) ==
  /\ c.outs = d.outs /\ c.nin = d.nin
  /\ Len(c.nodes) = Len(d.nodes)
  /\ \A i \in 1..Len(c.nodes) : LET x == c.nodes[i]
                                    y == d.nodes[i]
                                IN  x.op = y.op /\ x.a = y.a /\ x.v = y.v /\ x.n = y.n

-----------------------------------------------------------------------------
(* Actions.  h, h2 are handle numbers, mid a module identifier.              *)

Live == {h \in DOMAIN handles : handles[h] # 0}
Circ(h) == circs[handles[h]]
StoreOf(h) == stores[Circ(h).store]
ModuleKnown(h, mid) == mid >= 0 /\ mid < Len(StoreOf(h))
ModIx(h, mid) == StoreOf(h)[mid + 1]

CInit == circs = <<>> /\ stores = <<>> /\ handles = <<>>

\* s = 0: with a registry of its own; s > 0: with registry s.
NewCircuit(s) ==
  /\ s \in 0..Len(stores)
  /\ stores'  = IF s = 0 THEN Append(stores, <<>>) ELSE stores
  /\ circs'   = Append(circs, EmptyCircuit(IF s = 0 THEN Len(stores) + 1 ELSE s))
  /\ handles' = Append(handles, Len(circs) + 1)

SubCircuit(h) ==
  /\ stores'  = [stores EXCEPT ![Circ(h).store] = Append(@, Len(circs) + 1)]
  /\ circs'   = Append(circs, EmptyCircuit(Circ(h).store))
  /\ handles' = Append(handles, Len(circs) + 1)

Register(h, h2) ==
  /\ stores' = [stores EXCEPT ![Circ(h).store] = Append(@, handles[h2])]
  /\ UNCHANGED <<circs, handles>>

\* The same circuit registered k times.
RegisterMany(h, h2, k) ==
  /\ stores' = [stores EXCEPT ![Circ(h).store] = @ \o [i \in 1..k |-> handles[h2]]]
  /\ UNCHANGED <<circs, handles>>

CloneHandle(h) == handles' = Append(handles, handles[h]) /\ UNCHANGED <<circs, stores>>

DropHandle(h) == /\ h \in Live
                 /\ handles' = [handles EXCEPT ![h] = 0]
                 /\ UNCHANGED <<circs, stores>>

\* A copy of the circuit value (not of the handle): same gates, same registry.
CopyCircuit(h) ==
  /\ circs'   = Append(circs, [Circ(h) EXCEPT !.frozen = FALSE])
  /\ handles' = Append(handles, Len(circs) + 1)
  /\ UNCHANGED stores

GetModule(h, mid) ==
  /\ ModuleKnown(h, mid)
  /\ handles' = Append(handles, ModIx(h, mid))
  /\ UNCHANGED <<circs, stores>>

\* A circuit whose copies have been called is no longer modified: the API lets
\* a caller do it, but what earlier calls then mean is not specified.
Update(h, c) == /\ ~Circ(h).frozen
                /\ circs' = [circs EXCEPT ![handles[h]] = c]
                /\ UNCHANGED <<stores, handles>>

\* Many nodes with one gate each, nds[i] a function of the index i.
AddNodes(c, k, nd(_)) ==
  LET n == Len(c.gmap)
      m == Len(c.nodes)
  IN  [ c EXCEPT !.nodes = @ \o [i \in 1..k |-> nd(i)],
                 !.gmap  = @ \o [i \in 1..k |-> <<m + i, 0>>],
                 !.nwire = @ + k ]

\* Gates given as <<kind, operand, ...>>, one after the other.
CMany(c, gs) ==
  LET n == Len(c.gmap)
  IN  [ AddNodes(c, Len(gs), LAMBDA i : [op |-> gs[i][1], a |-> Tail(gs[i]), v |-> 0, n |-> 1, b |-> n + i - 1])
          EXCEPT !.ngate = @ + Len(gs) ]
CInputs(c, k) ==
  LET n == Len(c.gmap)
  IN  [ AddNodes(c, k, LAMBDA i : [op |-> "in", a |-> <<>>, v |-> c.nin + i - 1, n |-> 1, b |-> n + i - 1])
          EXCEPT !.nin = @ + k ]
CConsts(c, vs) ==
  LET n == Len(c.gmap)
  IN  [ AddNodes(c, Len(vs), LAMBDA i : [op |-> "const", a |-> <<>>, v |-> vs[i], n |-> 1, b |-> n + i - 1])
          EXCEPT !.nconst = @ + Len(vs) ]
COutputs(c, gs) == [c EXCEPT !.outs = @ \o gs]

\* The gates gs appended to c compute function op of the operands a: decided on
\* all assignments of the (at most two) operands.  This is all that is known
\* about the gates behind "equivalence" and "identity".
Computes(c, gs, op, a) ==
  LET n   == NumGateIds(c)
      col == <<12, 10>>
      env(acc, g) ==
        IF g >= n THEN (IF g - n < Len(acc) THEN acc[g - n + 1] ELSE Undef)
        ELSE IF g = a[1] THEN 12
        ELSE IF Len(a) = 2 /\ g = a[2] THEN 10
        ELSE Undef
      v == FoldLeft(LAMBDA acc, g :
                      LET x == env(acc, g[2])
                          y == IF Len(g) > 2 THEN env(acc, g[3]) ELSE 0
                      IN  Append(acc, IF x = Undef \/ y = Undef THEN Undef
                                      ELSE GateFn(g[1], x, y, 15)), <<>>, gs)
      y2 == IF Len(a) = 2 THEN (IF a[1] = a[2] THEN 12 ELSE 10) ELSE 0
  IN  /\ Len(gs) > 0
      /\ \A i \in 1..Len(gs) : Len(gs[i]) = (IF gs[i][1] = "not" THEN 2 ELSE 3)
      /\ v[Len(gs)] = (IF op = "equiv" THEN 15 - (12 ^^ y2) ELSE 12)

Input(h)       == Update(h, CInput(Circ(h)))
Const(h, v)    == Update(h, CConst(Circ(h), v))
Gate(h, op, a) == Update(h, CGate(Circ(h), op, a))
Many(h, gs)    == Update(h, CMany(Circ(h), gs))
Inputs(h, k)   == Update(h, CInputs(Circ(h), k))
Consts(h, vs)  == Update(h, CConsts(Circ(h), vs))
Outputs(h, gs) == /\ Holds(\A i \in 1..Len(gs) : HasGate(Circ(h), gs[i]))
                  /\ Update(h, COutputs(Circ(h), gs))
Equiv(h, a, b) == Update(h, CEquiv(Circ(h), a, b))
Ident(h, a)    == Update(h, CIdent(Circ(h), a))
\* Equivalence or identity realised by the gates gs.
Derived(h, op, a, gs) == Computes(Circ(h), gs, op, a) /\ Many(h, gs)

OutputOk(h, g) == HasGate(Circ(h), g)
Output(h, g)   == OutputOk(h, g) /\ Update(h, COutput(Circ(h), g))

CallOk(h, mid, args) ==
  /\ ModuleKnown(h, mid)
  /\ ModIx(h, mid) # handles[h]      \* a circuit does not call itself
  /\ Len(args) = circs[ModIx(h, mid)].nin
Call(h, mid, args) ==
  /\ CallOk(h, mid, args)
  /\ ~Circ(h).frozen
  /\ circs' = [circs EXCEPT
                 ![handles[h]]     = CCall(Circ(h), mid, circs[ModIx(h, mid)], args),
                 ![ModIx(h, mid)] = [@ EXCEPT !.frozen = TRUE]]
  /\ UNCHANGED <<stores, handles>>

\* Operations that fail (unknown gate, module, number of operands) change nothing.
Refused == UNCHANGED cvars

-----------------------------------------------------------------------------
(* Invariants and action properties *)

IdsWellFounded ==        \* operands precede the gates that read them
  \A ci \in DOMAIN circs : \A nd \in Range(circs[ci].nodes) :
    \A i \in 1..Len(nd.a) : nd.a[i] < nd.b

IdsFresh ==              \* C03: identifiers are dense and belong to one node
  \A ci \in DOMAIN circs :
    LET c == circs[ci]
    IN  \A g \in 0..(NumGateIds(c) - 1) :
          LET nd == c.nodes[c.gmap[g + 1][1]]
          IN  nd.b + c.gmap[g + 1][2] = g /\ c.gmap[g + 1][2] < nd.n

CountersExact ==         \* C04
  \A ci \in DOMAIN circs :
    /\ circs[ci].nconst = FlatConsts(circs, stores, ci)
    /\ circs[ci].ngate  = FlatGates(circs, stores, ci)
    /\ circs[ci].nwire  = FlatWires(circs, stores, ci)

ReadersExact ==          \* C05: readers and operands are inverse relations
  \A ci \in DOMAIN circs :
    LET c == circs[ci]
    IN  \A g \in 0..(NumGateIds(c) - 1) :
          LET r == Readers(c, g)
          IN  \A x \in 0..(NumGateIds(c) - 1) :
                LET nd == c.nodes[c.gmap[x + 1][1]]
                IN  Cardinality({i \in 1..Len(r) : r[i] = x})
                      = Cardinality({i \in 1..Len(nd.a) : nd.a[i] = g})

OutputsExist ==
  \A ci \in DOMAIN circs : \A i \in 1..Len(circs[ci].outs) :
    HasGate(circs[ci], circs[ci].outs[i])

\* C03, C22: nothing is ever changed or removed, registries only grow.
AppendOnly ==
  [][ /\ \A ci \in DOMAIN circs :
           /\ IsPrefix(circs[ci].nodes, circs'[ci].nodes)
           /\ IsPrefix(circs[ci].outs, circs'[ci].outs)
           /\ circs[ci].store = circs'[ci].store
      /\ \A s \in DOMAIN stores : IsPrefix(stores[s], stores'[s])
      /\ Len(handles) <= Len(handles')
      /\ \A h \in DOMAIN handles : handles'[h] \in {handles[h], 0} ]_cvars

\* C22: one step changes the gates or outputs of at most one circuit.
OneCircuitChanges ==
  [][ Cardinality({ci \in DOMAIN circs : circs[ci].nodes # circs'[ci].nodes
                                      \/ circs[ci].outs  # circs'[ci].outs}) <= 1 ]_cvars
=============================================================================
