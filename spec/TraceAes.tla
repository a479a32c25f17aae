------------------------------ MODULE TraceAes ------------------------------
(***************************************************************************)
(* Validates recorded evaluations of the AES-128 circuit: v lists the inputs *)
(* (16 bytes of plaintext, 16 bytes of key), r the outputs.                  *)
(***************************************************************************)
EXTENDS Aes, Json, IOUtils

ASSUME KnownAnswers

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
Init == l = 1

e == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1

TReset == IsEvent("reset")
TAes   == /\ IsEvent("aes")
          /\ e.st = "ok"
          /\ Len(e.r) = Len(e.v)
          /\ \A t \in 1..Len(e.v) :
               e.r[t] = Encrypt(SubSeq(e.v[t], 1, 16), SubSeq(e.v[t], 17, 32))

Next == TReset \/ TAes
TraceSpec == Init /\ [][Next]_l
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
