--------------------------------- MODULE MBT ---------------------------------
(***************************************************************************)
(* Enumerates *all* small circuits and module hierarchies and writes each as *)
(* the sequence of calls that builds it together with the replies and        *)
(* observations that Circuits predicts; the driver replays the calls on the  *)
(* real library and compares.  The invariants of Circuits are checked on the *)
(* same states.                                                              *)
(*                                                                          *)
(* Circuit 1 is the main circuit; circuits 2..1+NMods are modules of its     *)
(* registry, built one after the other (a later one may call earlier ones).  *)
(***************************************************************************)
EXTENDS Bristol, Sizes, Json, CSV, IOUtils, TLC

CONSTANTS Kinds,     \* gate kinds used
          WithConst, \* whether constants are used
          NMods,     \* number of modules
          ModIns,    \* possible numbers of inputs of a module
          ModNodes,  \* greatest number of further nodes of a module
          ModOuts,   \* greatest number of outputs of a module
          MainIns,   \* possible numbers of inputs of the main circuit
          MainNodes, \* greatest number of further nodes of the main circuit
          MainOuts,  \* greatest number of outputs of the main circuit
          MustCall,  \* only circuits that call a module
          Depth,     \* outputs tried on the main circuit: all sequences up to this length
          Obs        \* observations to make

VARIABLES cur,       \* circuit being built (NMods + 1 .. 2 modules first, then 1)
          phase,     \* "ins", "nodes", "outs" (of modules), "mainouts", "done"
          want       \* number of inputs wanted

mvars == <<circs, stores, handles, cur, phase, want>>

\* module k (1..NMods) is circuit k + 1 with module identifier k - 1
MInit == /\ circs   = [i \in 1..(NMods + 1) |-> EmptyCircuit(1)]
         /\ stores  = << [i \in 1..NMods |-> i + 1] >>
         /\ handles = [i \in 1..(NMods + 1) |-> i]
         /\ cur = IF NMods = 0 THEN 1 ELSE 2
         /\ phase = "ins"
         /\ want \in IF NMods = 0 THEN MainIns ELSE ModIns

C == circs[cur]
IsMain == cur = 1
Extra == Len(C.nodes) - C.nin
Ids == 0..(NumGateIds(C) - 1)
ArgsOf(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> Ids]
Callable == IF IsMain THEN 1..NMods ELSE 1..(cur - 2)

DoIn == /\ phase = "ins" /\ C.nin < want /\ Input(cur) /\ UNCHANGED <<cur, phase, want>>
InsDone == /\ phase = "ins" /\ C.nin = want /\ phase' = "nodes" /\ UNCHANGED <<circs, stores, handles, cur, want>>
DoGate == /\ phase = "nodes" /\ Extra < (IF IsMain THEN MainNodes ELSE ModNodes)
          /\ \E k \in Kinds : \E a \in ArgsOf(IF k \in Unary THEN 1 ELSE 2) : Gate(cur, k, a)
          /\ UNCHANGED <<cur, phase, want>>
DoConst == /\ phase = "nodes" /\ WithConst /\ Extra < (IF IsMain THEN MainNodes ELSE ModNodes)
           /\ \E v \in 0..1 : Const(cur, v)
           /\ UNCHANGED <<cur, phase, want>>
DoCall == /\ phase = "nodes" /\ Extra < (IF IsMain THEN MainNodes ELSE ModNodes)
          /\ \E m \in Callable : \E a \in ArgsOf(circs[m + 1].nin) : Call(cur, m - 1, a)
          /\ UNCHANGED <<cur, phase, want>>
NodesDone == /\ phase = "nodes" /\ ~IsMain /\ phase' = "outs"
             /\ UNCHANGED <<circs, stores, handles, cur, want>>
DoOut == /\ phase = "outs" /\ Len(C.outs) < ModOuts
         /\ \E g \in Ids : Output(cur, g)
         /\ UNCHANGED <<cur, phase, want>>
OutsDone == /\ phase = "outs"
            /\ cur' = IF cur = NMods + 1 THEN 1 ELSE cur + 1
            /\ phase' = "ins"
            /\ want' \in IF cur = NMods + 1 THEN MainIns ELSE ModIns
            /\ UNCHANGED <<circs, stores, handles>>

MainOut == /\ phase = "nodes" /\ IsMain /\ phase' = "mainouts"
           /\ UNCHANGED <<circs, stores, handles, cur, want>>
AddMainOut == /\ phase = "mainouts" /\ Len(C.outs) < MainOuts
              /\ \E g \in Ids : Output(1, g)
              /\ UNCHANGED <<cur, phase, want>>

-----------------------------------------------------------------------------
(* The calls and predicted replies. *)
Ev(h, nd) ==
  CASE nd.op = "in"    -> [op |-> "in", h |-> h, st |-> "ok", g |-> nd.b]
    [] nd.op = "const" -> [op |-> "const", h |-> h, v |-> nd.v, st |-> "ok", g |-> nd.b]
    [] nd.op = "call"  -> [op |-> "call", h |-> h, m |-> nd.v, a |-> nd.a, st |-> "ok",
                           gs |-> [i \in 1..nd.n |-> nd.b + i - 1]]
    [] OTHER           -> [op |-> "gate", h |-> h, k |-> nd.op, a |-> nd.a, st |-> "ok", g |-> nd.b]

Build(i) ==
  LET c == circs[i]
  IN  [j \in 1..Len(c.nodes) |-> Ev(i, c.nodes[j])]
      \o [j \in 1..Len(c.outs) |-> [op |-> "out", h |-> i, g |-> c.outs[j], st |-> "ok", w |-> j - 1]]

\* The truth-table column of input i among n inputs.
Cols(n) == [i \in 1..n |->
              FoldLeft(LAMBDA s, k : s + (IF (k \div 2^(i - 1)) % 2 = 1 THEN 2^k ELSE 0),
                       0, [k \in 1..(2^n) |-> k - 1])]

ObsOf(h, what) ==
  LET c   == circs[h]
      n   == 2^(c.nin)
      ins == Cols(c.nin)
  IN  CASE what = "sizes" -> [op |-> "sizes", h |-> h, st |-> "ok", r |-> Sizes(c)]
        [] what = "views" -> [op |-> "views", h |-> h, st |-> "ok", r |-> GateViews(c, stores)]
        [] what = "arities" -> [op |-> "arities", h |-> h, st |-> "ok", r |-> GateArities(c)]
        [] what = "nummod" -> [op |-> "nummod", h |-> h, st |-> "ok", r |-> Len(stores[c.store])]
        [] what = "io"    -> [op |-> "io", h |-> h, st |-> "ok", i |-> InputGates(c), o |-> c.outs]
        [] what = "consts" -> [op |-> "consts", h |-> h, st |-> "ok", r |-> ConstGates(c)]
        [] what = "alldeps" -> [op |-> "alldeps", h |-> h, st |-> "ok",
                                r |-> [g \in 1..NumGateIds(c) |-> Readers(c, g - 1)]]
        [] what = "allouts" -> [op |-> "allouts", h |-> h, d |-> Depth, n |-> n, ins |-> ins,
                                vals |-> Vals(circs, stores, h, ins, 2^n - 1), st |-> "ok", r |-> <<>>]
        [] what = "allround" -> [op |-> "allround", h |-> h, d |-> Depth, n |-> n, ins |-> ins,
                                vals |-> Vals(circs, stores, h, ins, 2^n - 1), st |-> "ok", r |-> <<>>]
        [] what = "eval"  -> [op |-> "eval", h |-> h, n |-> n, ins |-> ins, ev |-> 0, st |-> "ok",
                              r |-> OutVals(circs, stores, h, ins, 2^n - 1)]

\* Writing it, with each way to split the inputs (the replies are recorded, then validated
\* against TraceCircuits: what the file must be is not one text).
Writes(h) ==
  LET c == circs[h]
  IN  [k \in 1..(c.nin + c.nconst + 1) |->
         [op |-> "write", h |-> h, first |-> k - 1, n |-> 2^(c.nin), ins |-> Cols(c.nin), map |-> TRUE,
          what |-> <<"shape", "fun", "wmap">>]]

ObsSeq == SetToSeq(Obs \ {"writes"})
PerModule == {"sizes", "views", "arities", "nummod", "io", "consts", "alldeps", "eval"}
Observe ==
  [j \in 1..Len(ObsSeq) |-> ObsOf(1, ObsSeq[j])]
  \o FoldLeft(LAMBDA acc, i : acc \o
                 LET s == SelectSeq(ObsSeq, LAMBDA x : x \in PerModule)
                 IN  [j \in 1..Len(s) |-> ObsOf(i + 1, s[j])],
              <<>>, [i \in 1..NMods |-> i])

Behaviour ==
  << [op |-> "new", s |-> 0, st |-> "ok"] >>
  \o [i \in 1..NMods |-> [op |-> "sub", h |-> 1, m |-> i - 1, st |-> "ok"]]
  \o FoldLeft(LAMBDA acc, i : acc \o Build(i + 1), <<>>, [i \in 1..NMods |-> i])
  \o Build(1)
  \o Observe
  \o IF "writes" \in Obs THEN Writes(1) ELSE <<>>

\* Sizes (used where the numbers are too large for this module) counts the same.
RECURSIVE SizesOf(_)
SizesOf(ci) ==
  LET c == circs[ci]
      Step(z, nd) == CASE nd.op = "in" -> ZInput(z) [] nd.op = "const" -> ZConst(z)
                       [] nd.op = "call" -> ZCall(z, SizesOf(stores[c.store][nd.v + 1]))
                       [] OTHER -> ZGate(z)
  IN  FoldLeft(LAMBDA z, g : ZOutput(z), FoldLeft(Step, NoSizes, c.nodes), c.outs)
SizesAgree ==
  \A ci \in DOMAIN circs :
    SizesOf(ci) = [nin |-> circs[ci].nin, nout |-> Len(circs[ci].outs), nconst |-> Big(circs[ci].nconst),
                   ngate |-> Big(circs[ci].ngate), nwire |-> Big(circs[ci].nwire)]

Emit == /\ phase = "mainouts"
        /\ MustCall => \E j \in 1..Len(C.nodes) : C.nodes[j].op = "call"
        /\ CSVWrite("%1$s", <<ToJson(Behaviour)>>, IOEnv.BEHAVIOURS)
        /\ phase' = "done"
        /\ UNCHANGED <<circs, stores, handles, cur, want>>

MNext == DoIn \/ InsDone \/ DoGate \/ DoConst \/ DoCall \/ NodesDone \/ DoOut \/ OutsDone \/ MainOut \/ AddMainOut \/ Emit
MSpec == MInit /\ [][MNext]_mvars
=============================================================================
