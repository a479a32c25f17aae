---------------------------- MODULE TraceCircuits ----------------------------
(***************************************************************************)
(* Validates a recorded run of the real library against Circuits/Bristol:    *)
(* one line per call, one specification step per line.  A line is a record   *)
(*   op : the call, its arguments (h: handle, a: operands, ...), and its      *)
(*   reply (st: "ok" | "err" | "panic"; the other reply fields by call).      *)
(* Gates, modules and circuits are named by their creation number; a reply   *)
(* that repeats an old identifier therefore repeats an old number.            *)
(***************************************************************************)
EXTENDS Bristol, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<circs, stores, handles, l>>

TraceInit == CInit /\ l = 1

e == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Ok   == e.st = "ok"
Err  == e.st = "err"
Mask(n) == 2^n - 1

-----------------------------------------------------------------------------
TReset == /\ IsEvent("reset")
          /\ circs' = <<>> /\ stores' = <<>> /\ handles' = <<>>

TNew   == IsEvent("new") /\ Ok /\ NewCircuit(e.s)
TSub   == IsEvent("sub") /\ Ok /\ e.m = Len(StoreOf(e.h)) /\ SubCircuit(e.h)
TReg   == IsEvent("reg") /\ Ok /\ e.m = Len(StoreOf(e.h)) /\ Register(e.h, e.h2)
TClone == IsEvent("clone") /\ Ok /\ CloneHandle(e.h)
TCopy  == IsEvent("copy") /\ Ok /\ CopyCircuit(e.h)
TDrop  == IsEvent("drop") /\ Ok /\ DropHandle(e.h)
TGetM  == IsEvent("getmod") /\ IF ModuleKnown(e.h, e.m) THEN Ok /\ GetModule(e.h, e.m)
                                                        ELSE Err /\ Refused

NextId(h) == NumGateIds(Circ(h))
Dangling(h, a) == \E i \in 1..Len(a) : ~HasGate(Circ(h), a[i])

TIn    == IsEvent("in") /\ Ok /\ e.g = NextId(e.h) /\ Input(e.h)
TConst == IsEvent("const") /\ Ok /\ e.g = NextId(e.h) /\ Const(e.h, e.v)
\* Making a gate with an unknown operand may fail at once or when it is evaluated.
TGate  == /\ IsEvent("gate")
          /\ \/ Ok /\ e.g = NextId(e.h) /\ Gate(e.h, e.k, e.a)
             \/ Err /\ Dangling(e.h, e.a) /\ Refused
TMany  == IsEvent("many") /\ Ok /\ e.g = NextId(e.h) + Len(e.gs) - 1 /\ Many(e.h, e.gs)
TManyIn == IsEvent("manyin") /\ Ok /\ e.g = NextId(e.h) + e.k - 1 /\ Inputs(e.h, e.k)
TManyConst == IsEvent("manyconst") /\ Ok /\ e.g = NextId(e.h) + Len(e.vs) - 1 /\ Consts(e.h, e.vs)
TManyOut == /\ IsEvent("manyout") /\ Ok
            /\ e.w = [i \in 1..Len(e.gs) |-> Len(Circ(e.h).outs) + i - 1]
            /\ Outputs(e.h, e.gs)
TRegMany == /\ IsEvent("manyreg") /\ Ok
            /\ e.m = Len(StoreOf(e.h)) + e.k - 1
            /\ RegisterMany(e.h, e.h2, e.k)
TDeriv == /\ IsEvent("derived") /\ Ok
          /\ e.g = NextId(e.h) + Len(e.gs) - 1
          /\ Derived(e.h, e.k, e.a, e.gs)
TOut   == /\ IsEvent("out")
          /\ IF OutputOk(e.h, e.g) THEN Ok /\ e.w = Len(Circ(e.h).outs) /\ Output(e.h, e.g)
                                   ELSE Err /\ Refused
TCall  == /\ IsEvent("call")
          /\ IF CallOk(e.h, e.m, e.a)
             THEN /\ Ok
                  /\ e.gs = [i \in 1..Len(circs[ModIx(e.h, e.m)].outs) |-> NextId(e.h) + i - 1]
                  /\ Call(e.h, e.m, e.a)
             ELSE Err /\ Refused

-----------------------------------------------------------------------------
(* Observations: the state does not change. *)
TSizes == IsEvent("sizes") /\ Ok /\ e.r = Sizes(Circ(e.h)) /\ Refused
TLens  == IsEvent("lens") /\ Ok /\ e.r = <<Circ(e.h).nin, Len(Circ(e.h).outs)>> /\ Refused
TView  == /\ IsEvent("view")
          /\ IF HasGate(Circ(e.h), e.g) THEN Ok /\ e.r = GateView(Circ(e.h), stores, e.g) ELSE Err
          /\ Refused
TViews == IsEvent("views") /\ Ok /\ e.r = GateViews(Circ(e.h), stores) /\ Refused
TArities == IsEvent("arities") /\ Ok /\ e.r = GateArities(Circ(e.h)) /\ Refused
\* the number of modules in the registry of h
TNumMod == IsEvent("nummod") /\ Ok /\ e.r = Len(StoreOf(e.h)) /\ Refused
TConsts == IsEvent("consts") /\ Ok /\ e.r = ConstGates(Circ(e.h)) /\ Refused
TInp   == /\ IsEvent("inp")
          /\ IF e.i < Circ(e.h).nin THEN Ok /\ e.r = InputGates(Circ(e.h))[e.i + 1] ELSE Err
          /\ Refused
TOutp  == /\ IsEvent("outp")
          /\ IF e.i < Len(Circ(e.h).outs) THEN Ok /\ e.r = Circ(e.h).outs[e.i + 1] ELSE Err
          /\ Refused
\* inputs and outputs, all of them
TIO    == /\ IsEvent("io") /\ Ok
          /\ e.i = InputGates(Circ(e.h)) /\ e.o = Circ(e.h).outs /\ Refused
\* How often each gate occurs in s.
CountsOf(s, n) == VSeq(FoldLeft(LAMBDA t, g : VSet(t, g, VAt(t, g) + 1), VFrom([i \in 1..n |-> 0]), s))
\* The same gates equally often (t: gates of circuit c).
SameBag(c, s, t) == \/ s = t
                    \/ /\ Len(s) = Len(t)
                       /\ \A i \in DOMAIN s : HasGate(c, s[i])
                       /\ CountsOf(s, NumGateIds(c)) = CountsOf(t, NumGateIds(c))
TDeps  == /\ IsEvent("deps")
          /\ IF HasGate(Circ(e.h), e.g) THEN Ok /\ SameBag(Circ(e.h), e.r, Readers(Circ(e.h), e.g))
                                        ELSE (Ok \/ Err)
          /\ Refused
\* some gates of a big circuit
TViewAt == /\ IsEvent("viewat") /\ Ok /\ Refused
           /\ e.r = [i \in 1..Len(e.gs) |-> GateView(Circ(e.h), stores, e.gs[i])]
TDepsAt == /\ IsEvent("depsat") /\ Ok /\ Refused /\ Len(e.r) = Len(e.gs)
           /\ Holds(\A i \in 1..Len(e.r) : SameBag(Circ(e.h), e.r[i], Readers(Circ(e.h), e.gs[i])))
TAllDeps == /\ IsEvent("alldeps") /\ Ok /\ Len(e.r) = NumGateIds(Circ(e.h))
            /\ Holds(\A g \in 1..Len(e.r) : SameBag(Circ(e.h), e.r[g], Readers(Circ(e.h), g - 1)))
            /\ Refused
TEqual == IsEvent("eq") /\ Ok /\ e.r = SameCircuit(Circ(e.h), Circ(e.h2)) /\ Refused

\* Evaluation in e.n lanes.
\* (in an action \E x \in {v} evaluates v once, a LET each time x is used)
TEval == /\ IsEvent("eval")
         /\ IF Len(e.ins) # Circ(e.h).nin THEN Err
            ELSE \E r \in {OutVals(circs, stores, handles[e.h], e.ins, Mask(e.n))} :
                   IF \E i \in DOMAIN r : r[i] = Undef THEN Err
                   ELSE Ok /\ e.r = r
         /\ Refused

\* A circuit after reading a malformed file into it: the file's inputs and outputs may have been
\* added or not; what the circuit had before is as it was, and it can be evaluated.
\* (Where the file was well-formed after all, it has been added.)
TProbe == /\ IsEvent("probe") /\ Ok
          /\ IF Circ(e.h).frozen
             THEN /\ e.lens[1] >= Circ(e.h).nin /\ e.lens[2] >= Len(Circ(e.h).outs)
                  /\ Len(e.r) = e.lens[2]
                  /\ SubSeq(e.r, 1, Len(Circ(e.h).outs)) = OutVals(circs, stores, handles[e.h], e.ins, Mask(e.n))
             ELSE e.lens = <<Circ(e.h).nin, Len(Circ(e.h).outs)>>
          /\ Refused

-----------------------------------------------------------------------------
(* Files *)
TRead == IsEvent("read") /\ (Ok \/ Err) /\ ReadRows(e.h, e.rows, Ok)

\* The sink may refuse bytes during this call; writing then returns an error, unless the file
\* is complete all the same.
MayRefuse == "sink" \in DOMAIN e /\ e.sink[3] >= 0

\* what: which demands this line is checked against (shape, function, wire map).
TWrite == /\ IsEvent("write")
          /\ \/ Err /\ MayRefuse
             \/ \E M \in {Mask(e.n)} : \E r \in {OutVals(circs, stores, handles[e.h], e.ins, M)} :
                    IF \E i \in DOMAIN r : r[i] = Undef THEN Err
                    ELSE /\ Ok
                         /\ e.parsed
                         /\ Holds("shape" \in Range(e.what) => WrittenShape(Circ(e.h), e.f, e.first, e.consts))
                         /\ Holds("fun" \in Range(e.what) =>
                                    /\ Readable(e.f)
                                    /\ NumIns(e.f) = Len(e.ins) + Len(e.consts)
                                    /\ FileOuts(e.f, e.ins \o ConstLanes(e.consts, M), M) = r)
                         /\ Holds("wmap" \in Range(e.what) =>
                                    WireMapOk(circs, stores, handles[e.h], e.f, e.consts, e.wmap, e.ins, M))
          /\ Refused

\* Write circuit h, read the file into an empty circuit, and evaluate that one
\* with the values of the constants appended to the inputs.
TRound == /\ IsEvent("round") /\ Ok
          /\ e.r = OutVals(circs, stores, handles[e.h], e.ins, Mask(e.n))
          /\ Refused

-----------------------------------------------------------------------------
TraceNext ==
  \/ TReset \/ TNew \/ TSub \/ TReg \/ TClone \/ TCopy \/ TDrop \/ TGetM
  \/ TIn \/ TConst \/ TGate \/ TMany \/ TManyIn \/ TManyConst \/ TManyOut \/ TRegMany \/ TDeriv \/ TOut \/ TCall
  \/ TSizes \/ TLens \/ TView \/ TViews \/ TArities \/ TNumMod \/ TConsts \/ TInp \/ TOutp \/ TIO
  \/ TDeps \/ TAllDeps \/ TViewAt \/ TDepsAt \/ TEqual \/ TEval \/ TProbe \/ TRead \/ TWrite \/ TRound

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* Every line was accepted (one state per line, plus the initial one).
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)

\* The state with which TLC stopped is printed by the driver's second run.
=============================================================================
