----------------------------- MODULE TraceSizes -----------------------------
(* Recorded runs that build huge hierarchies, validated against Sizes. *)
EXTENDS Sizes, Json, TLC, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES z,     \* sizes of circuit i
          mods,  \* module identifier -> circuit (one registry)
          l
vars == <<z, mods, l>>

e == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Ok == e.st = "ok"

Set(h, x) == z' = [z EXCEPT ![h] = x] /\ UNCHANGED mods
RECURSIVE Times(_, _, _)
Times(f(_), k, x) == IF k = 0 THEN x ELSE Times(f, k - 1, f(x))

Init == z = <<>> /\ mods = <<>> /\ l = 1
TReset == IsEvent("reset") /\ z' = <<>> /\ mods' = <<>>
TNew == IsEvent("new") /\ Ok /\ z' = Append(z, NoSizes) /\ UNCHANGED mods
TSub == /\ IsEvent("sub") /\ Ok /\ e.m = Len(mods)
        /\ z' = Append(z, NoSizes) /\ mods' = Append(mods, Len(z) + 1)
TIn == IsEvent("manyin") /\ Ok /\ Set(e.h, Times(ZInput, e.k, z[e.h]))
TConst == IsEvent("manyconst") /\ Ok /\ Set(e.h, Times(ZConst, Len(e.vs), z[e.h]))
TGates == IsEvent("many") /\ Ok /\ Set(e.h, Times(ZGate, Len(e.gs), z[e.h]))
TOut == IsEvent("manyout") /\ Ok /\ Set(e.h, Times(ZOutput, Len(e.gs), z[e.h]))
TCall == /\ IsEvent("call") /\ Ok
         /\ Len(e.gs) = z[mods[e.m + 1]].nout
         /\ Set(e.h, ZCall(z[e.h], z[mods[e.m + 1]]))
TSizes == /\ IsEvent("bigsizes") /\ Ok
          /\ e.r = << Big(z[e.h].nin), Big(z[e.h].nout), z[e.h].nwire, z[e.h].ngate, z[e.h].nconst >>
          /\ UNCHANGED <<z, mods>>

Next == TReset \/ TNew \/ TSub \/ TIn \/ TConst \/ TGates \/ TOut \/ TCall \/ TSizes
Spec == Init /\ [][Next]_vars
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
