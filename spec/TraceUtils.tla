----------------------------- MODULE TraceUtils -----------------------------
(* Validates recorded calls of the conversions and of the extended gcd. *)
EXTENDS Utils, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
Init == l = 1

e == Trace[l]
IsEvent(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
Call(k) == IsEvent("util") /\ e.k = k
Gives(r) == e.st = "ok" /\ Len(e.r) = Len(r) /\ \A i \in 1..Len(r) : e.r[i] = r[i]

TReset     == IsEvent("reset")
TToBits(be) == Call(IF be THEN "bytes2bits_be" ELSE "bytes2bits_le") /\ Gives(BytesToBits(e.v, be))
\* (only whole bytes are specified)
TToBytes(be) == /\ Call(IF be THEN "bits2bytes_be" ELSE "bits2bytes_le")
                /\ Len(e.v) % 8 = 0 /\ Gives(BitsToBytes(e.v, be))
TToHex     == Call("bytes2hex") /\ Gives(BytesToHex(e.v))
TFromHex   == /\ Call("hex2bytes")
              /\ IF HexOk(e.v) THEN Gives(HexToBytes(e.v)) ELSE e.st = "err"
TGcd       == /\ Call("ext_gcd") /\ e.st = "ok"
              /\ Len(e.r) = 3
              /\ IsExtGcd(e.v[1], e.v[2], e.r[1], e.r[2], e.r[3])

Next == TReset \/ TToHex \/ TFromHex \/ TGcd \/ \E be \in BOOLEAN : TToBits(be) \/ TToBytes(be)
TraceSpec == Init /\ [][Next]_l
TraceAccepted == PrintT(<<"ACCEPTED", TLCGet("stats").diameter - 1, "OF", Len(Trace)>>)
=============================================================================
