------------------------------- MODULE Handles -------------------------------
(***************************************************************************)
(* Enumerates *all* short sequences of operations on handles, copies,        *)
(* sub-circuits and registries (accepted and refused ones), from a few small *)
(* starting points, and writes each with the replies and the final           *)
(* observations Circuits predicts; the driver replays them on the library.   *)
(* Where MBT varies the circuits, this varies who changes and reads them.    *)
(***************************************************************************)
EXTENDS Circuits, Json, CSV, IOUtils, TLC

CONSTANTS Seeds,       \* starting points used
          MaxOps,      \* length of the sequences
          MaxHandles,  \* no more handles than this
          Ops,         \* operations used
          Misuse       \* whether refused requests are made before the final observations

VARIABLES hist,  \* the calls made, with their replies
          phase
hvars == <<circs, stores, handles, hist, phase>>

-----------------------------------------------------------------------------
(* Starting points: calls and the state they lead to. *)
EvNew(s)      == [op |-> "new", s |-> s, st |-> "ok"]
EvIn(h, g)    == [op |-> "in", h |-> h, st |-> "ok", g |-> g]
EvGate(h, k, a, g) == [op |-> "gate", h |-> h, k |-> k, a |-> a, st |-> "ok", g |-> g]
EvOut(h, g, w) == [op |-> "out", h |-> h, g |-> g, st |-> "ok", w |-> w]

Small(s) == COutput(CGate(CInput(EmptyCircuit(s)), "not", <<0>>), 1)
SmallEvs(h) == << EvIn(h, 0), EvGate(h, "not", <<0>>, 1), EvOut(h, 1, 0) >>
Wide(s) == COutput(CGate(CInput(CInput(EmptyCircuit(s))), "and", <<0, 1>>), 2)
WideEvs(h) == << EvIn(h, 0), EvIn(h, 1), EvGate(h, "and", <<0, 1>>, 2), EvOut(h, 2, 0) >>

\* [calls, circs, stores, handles]
Seed(k) ==
  CASE k = "empty"  -> [e |-> <<EvNew(0)>>, c |-> <<EmptyCircuit(1)>>, s |-> << <<>> >>, h |-> <<1>>]
    [] k = "one"    -> [e |-> <<EvNew(0)>> \o SmallEvs(1), c |-> <<Small(1)>>, s |-> << <<>> >>, h |-> <<1>>]
    \* a circuit with an input and a module
    [] k = "module" -> [e |-> <<EvNew(0), [op |-> "sub", h |-> 1, m |-> 0, st |-> "ok"]>> \o WideEvs(2) \o <<EvIn(1, 0)>>,
                        c |-> <<CInput(EmptyCircuit(1)), Wide(1)>>, s |-> << <<2>> >>, h |-> <<1, 2>>]
    \* two circuits with registries of their own
    [] k = "apart"  -> [e |-> <<EvNew(0), EvNew(0)>> \o SmallEvs(1) \o SmallEvs(2),
                        c |-> <<Small(1), Small(2)>>, s |-> << <<>>, <<>> >>, h |-> <<1, 2>>]

HInit == \E k \in Seeds :
           /\ hist = Seed(k).e /\ circs = Seed(k).c /\ stores = Seed(k).s /\ handles = Seed(k).h
           /\ phase = Len(Seed(k).e)

H == Live
Done == Len(hist) - phase
May(op) == op \in Ops /\ phase >= 0 /\ Done < MaxOps
Log(ev) == hist' = Append(hist, ev) /\ UNCHANGED phase
Room == Len(handles) < MaxHandles
NextId(h) == NumGateIds(Circ(h))

-----------------------------------------------------------------------------
HNew == /\ May("new") /\ Room
        /\ \E s \in 0..Len(stores) : NewCircuit(s) /\ Log(EvNew(s))
HSub == /\ May("sub") /\ Room
        /\ \E h \in H : SubCircuit(h) /\ Log([op |-> "sub", h |-> h, m |-> Len(StoreOf(h)), st |-> "ok"])
HReg == /\ May("reg")
        /\ \E h, h2 \in H : /\ Register(h, h2)
                            /\ Log([op |-> "reg", h |-> h, h2 |-> h2, m |-> Len(StoreOf(h)), st |-> "ok"])
HClone == May("clone") /\ Room /\ \E h \in H : CloneHandle(h) /\ Log([op |-> "clone", h |-> h, st |-> "ok"])
HCopy == May("copy") /\ Room /\ \E h \in H : CopyCircuit(h) /\ Log([op |-> "copy", h |-> h, st |-> "ok"])
HDrop == May("drop") /\ \E h \in H : DropHandle(h) /\ Log([op |-> "drop", h |-> h, st |-> "ok"])
HGetM == /\ May("getmod") /\ Room
         /\ \E h \in H : \E m \in 0..Len(StoreOf(h)) :
              IF ModuleKnown(h, m) THEN GetModule(h, m) /\ Log([op |-> "getmod", h |-> h, m |-> m, st |-> "ok"])
              ELSE Refused /\ Log([op |-> "getmod", h |-> h, m |-> m, st |-> "err"])
HIn == May("in") /\ \E h \in H : Input(h) /\ Log(EvIn(h, NextId(h)))
HConst == /\ May("const")
          /\ \E h \in H : Const(h, 1) /\ Log([op |-> "const", h |-> h, v |-> 1, st |-> "ok", g |-> NextId(h)])
HGate == /\ May("gate")
         /\ \E h \in H : /\ NextId(h) > 0
                         /\ Gate(h, "xor", <<NextId(h) - 1, 0>>)
                         /\ Log(EvGate(h, "xor", <<NextId(h) - 1, 0>>, NextId(h)))
\* the newest gate or one that does not exist
HOut == /\ May("out")
        /\ \E h \in H : \E g \in {NextId(h) - 1, NextId(h)} \ {-1} :
             IF OutputOk(h, g) THEN Output(h, g) /\ Log(EvOut(h, g, Len(Circ(h).outs)))
             ELSE Refused /\ Log([op |-> "out", h |-> h, g |-> g, st |-> "err"])
\* as many operands as needed (when there is a gate), and one too few
HCall == /\ May("call")
         /\ \E h \in H : \E m \in 0..Len(StoreOf(h)) :
              LET k == IF ModuleKnown(h, m) THEN circs[ModIx(h, m)].nin ELSE 1
                  args(n) == [i \in 1..n |-> IF i = n THEN NextId(h) - 1 ELSE 0]
                  ev(n) == [op |-> "call", h |-> h, m |-> m, a |-> args(n)]
              IN  \E n \in {k, k - 1} \ {-1} :
                    /\ n > 0 => NextId(h) > 0
                    /\ IF CallOk(h, m, args(n))
                       THEN /\ Call(h, m, args(n))
                            /\ Log(ev(n) @@ [st |-> "ok",
                                             gs |-> [i \in 1..Len(circs[ModIx(h, m)].outs) |-> NextId(h) + i - 1]])
                       ELSE Refused /\ Log(ev(n) @@ [st |-> "err"])

-----------------------------------------------------------------------------
(* Everything that can be seen at the end. *)
LanesOf(n) == IF n <= 4 THEN 2^n ELSE 24
Cols(n) == [i \in 1..n |->
              FoldLeft(LAMBDA s, k : s + (IF (k \div 2^(i - 1)) % 2 = 1 THEN 2^k ELSE 0),
                       0, [k \in 1..LanesOf(n) |-> k - 1])]
Concat(f(_), n) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, [i \in 1..n |-> i])
Flat(c) == \A i \in 1..Len(c.nodes) : c.nodes[i].op # "call"

Seen(h, ci) ==
  LET c == circs[ci]
      n == LanesOf(c.nin)
  IN  << [op |-> "sizes", h |-> h, st |-> "ok", r |-> Sizes(c)],
         [op |-> "views", h |-> h, st |-> "ok", r |-> GateViews(c, stores)],
         [op |-> "arities", h |-> h, st |-> "ok", r |-> GateArities(c)],
         [op |-> "nummod", h |-> h, st |-> "ok", r |-> Len(stores[c.store])],
         [op |-> "io", h |-> h, st |-> "ok", i |-> InputGates(c), o |-> c.outs],
         [op |-> "consts", h |-> h, st |-> "ok", r |-> ConstGates(c)],
         [op |-> "alldeps", h |-> h, st |-> "ok", r |-> [g \in 1..NumGateIds(c) |-> Readers(c, g - 1)]],
         [op |-> "eval", h |-> h, n |-> n, ins |-> Cols(c.nin), st |-> "ok",
          r |-> OutVals(circs, stores, ci, Cols(c.nin), 2^n - 1)] >>
\* Requests that are refused; the numbers from 1900000000 on stand for identifiers
\* that differ from a known one (the first, or input or output 0) by 2^8, 2^32, 2^63.
Refusals(h, ci) ==
  LET c == circs[ci]
      zeros(n) == [i \in 1..n |-> 0]
      Bad(op, key, x) == [op |-> op, h |-> h, st |-> "err"] @@ (key :> x)
      E(n) == [op |-> "eval", h |-> h, n |-> 1, ins |-> zeros(n), st |-> "err"]
      far == <<1900000000, 1904000000, 1906000000>>
  IN  << E(c.nin + 1) >> \o (IF c.nin > 0 THEN << E(c.nin - 1) >> ELSE <<>>)
      \o << Bad("view", "g", NumGateIds(c)), Bad("out", "g", NumGateIds(c)),
            Bad("inp", "i", c.nin), Bad("outp", "i", Len(c.outs)) >>
      \o [k \in 1..3 |-> Bad("view", "g", far[k])] \o [k \in 1..3 |-> Bad("out", "g", far[k])]
      \o [k \in 1..3 |-> Bad("inp", "i", far[k])] \o [k \in 1..3 |-> Bad("outp", "i", far[k])]
      \o [k \in 1..3 |-> Bad("getmod", "m", far[k])]
      \o << Bad("getmod", "m", Len(stores[c.store])) >>
SeenEq(h) ==
  LET s == SelectSeq([i \in 1..Len(handles) |-> i],
                     LAMBDA h2 : h2 >= h /\ h2 \in H /\ Flat(Circ(h)) /\ Flat(Circ(h2)))
  IN  [i \in 1..Len(s) |-> [op |-> "eq", h |-> h, h2 |-> s[i], st |-> "ok", r |-> SameCircuit(Circ(h), Circ(s[i]))]]
\* a handle of each registry, and each of its modules
Registries == SetToSeq({<<CHOOSE h \in H : Circ(h).store = s, m>> :
                          <<s, m>> \in {<<s, m>> \in (1..Len(stores)) \X (0..10) :
                                          m < Len(stores[s]) /\ \E h \in H : Circ(h).store = s}})
SeenMod(k) ==
  LET p == Registries[k]
      ci == stores[Circ(p[1]).store][p[2] + 1]
      h2 == Len(handles) + k
  IN  << [op |-> "getmod", h |-> p[1], m |-> p[2], st |-> "ok"],
         [op |-> "sizes", h |-> h2, st |-> "ok", r |-> Sizes(circs[ci])],
         [op |-> "views", h |-> h2, st |-> "ok", r |-> GateViews(circs[ci], stores)],
         [op |-> "io", h |-> h2, st |-> "ok", i |-> InputGates(circs[ci]), o |-> circs[ci].outs],
         [op |-> "eval", h |-> h2, n |-> LanesOf(circs[ci].nin), ins |-> Cols(circs[ci].nin), st |-> "ok",
          r |-> OutVals(circs, stores, ci, Cols(circs[ci].nin), 2^LanesOf(circs[ci].nin) - 1)] >>

Observe == (IF Misuse THEN Concat(LAMBDA h : IF h \in H THEN Refusals(h, handles[h]) ELSE <<>>, Len(handles)) ELSE <<>>)
           \o Concat(LAMBDA h : IF h \in H THEN Seen(h, handles[h]) ELSE <<>>, Len(handles))
           \o Concat(LAMBDA h : IF h \in H THEN SeenEq(h) ELSE <<>>, Len(handles))
           \o Concat(SeenMod, Len(Registries))

Emit == /\ phase >= 0 /\ Done = MaxOps
        /\ CSVWrite("%1$s", <<ToJson(hist \o Observe)>>, IOEnv.BEHAVIOURS)
        /\ phase' = -1
        /\ UNCHANGED <<circs, stores, handles, hist>>

HNext == HNew \/ HSub \/ HReg \/ HClone \/ HCopy \/ HDrop \/ HGetM \/ HIn \/ HConst \/ HGate \/ HOut \/ HCall \/ Emit
HSpec == HInit /\ [][HNext]_hvars
=============================================================================
