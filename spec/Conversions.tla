----------------------------- MODULE Conversions ----------------------------
(***************************************************************************)
(* Enumerates *all* short inputs of the conversions (over representative      *)
(* bytes and characters) and writes each call with the result Utils gives;    *)
(* the driver replays them on the library.  What the conversions promise each *)
(* other -- inverse, one digit or bit per place -- is checked on the same      *)
(* inputs.                                                                    *)
(***************************************************************************)
EXTENDS Utils, Json, CSV, IOUtils, TLC

CONSTANTS Some,     \* bytes used in strings of length 2 and more
          Chars,    \* characters used in strings of length 3 and more
          MaxBytes, MaxChars

VARIABLES todo
vars == <<todo>>

Byte == 0..255
Strings(S, n) == [1..n -> S]
\* (tagged: what is written, on what)
ByteStrings == {<<>>} \cup Strings(Byte, 1) \cup UNION {Strings(Some, n) : n \in 2..MaxBytes}
Ascii == 0..127
HexStrings == {<<>>} \cup Strings(Ascii \cup {233, 1632, 65297}, 1)
              \cup UNION {Strings(Chars, n) : n \in 3..MaxChars}

Ok(k, v, r) == [op |-> "util", k |-> k, v |-> v, st |-> "ok", r |-> r]
Err(k, v)   == [op |-> "util", k |-> k, v |-> v, st |-> "err"]

OfBytes(v) ==
  LET le == BytesToBits(v, FALSE)
      be == BytesToBits(v, TRUE)
      hx == BytesToHex(v)
      \* upper case: each digit by itself, so that mixed strings occur
      up == [i \in 1..Len(hx) |-> IF hx[i] >= 97 /\ (i + Len(v)) % 3 # 0 THEN hx[i] - 32 ELSE hx[i]]
  IN  << Ok("bytes2bits_le", v, le), Ok("bytes2bits_be", v, be),
         Ok("bits2bytes_le", le, v), Ok("bits2bytes_be", be, v),
         Ok("bits2bytes_le", be, BitsToBytes(be, FALSE)), Ok("bits2bytes_be", le, BitsToBytes(le, TRUE)),
         Ok("bytes2hex", v, hx), Ok("hex2bytes", hx, v), Ok("hex2bytes", up, v) >>
OfHex(v) == << IF HexOk(v) THEN Ok("hex2bytes", v, HexToBytes(v)) ELSE Err("hex2bytes", v) >>

Inputs == ({"bytes"} \X ByteStrings) \cup ({"hex"} \X HexStrings) \cup ({"two"} \X Ascii)

Init == todo \in Inputs
Reset == [op |-> "reset", lanes |-> 0, st |-> "ok"]
Calls(x) == CASE x[1] = "bytes" -> OfBytes(x[2])
              [] x[1] = "hex"   -> OfHex(x[2])
              \* all strings of two characters
              [] x[1] = "two"   -> [c \in 1..128 |-> OfHex(<<x[2], c - 1>>)[1]]
Emit == /\ todo # <<>>
        /\ CSVWrite("%1$s", <<ToJson(<<Reset>> \o Calls(todo))>>, IOEnv.BEHAVIOURS)
        /\ todo' = <<>>
Spec == Init /\ [][Emit]_vars

-----------------------------------------------------------------------------
Same(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Reverse8(s) == [i \in 1..Len(s) |-> s[8 * ((i - 1) \div 8) + (8 - ((i - 1) % 8))]]
Inverses ==
  todo # <<>> /\ todo[1] = "bytes" =>
    LET v == todo[2]
    IN  /\ \A be \in BOOLEAN : /\ Len(BytesToBits(v, be)) = 8 * Len(v)
                               /\ Same(BitsToBytes(BytesToBits(v, be), be), v)
        /\ Same(BytesToBits(v, TRUE), Reverse8(BytesToBits(v, FALSE)))
        /\ HexOk(BytesToHex(v)) /\ Same(HexToBytes(BytesToHex(v)), v)
HexIsDigits ==
  todo # <<>> /\ todo[1] = "hex" /\ HexOk(todo[2]) =>
    /\ \A i \in 1..Len(HexToBytes(todo[2])) : HexToBytes(todo[2])[i] \in Byte
    /\ \A i \in 1..Len(todo[2]) : DigitOf(todo[2][i]) \in 0..15
    /\ \A i \in 1..Len(todo[2]) : DigitOf(BytesToHex(HexToBytes(todo[2]))[i]) = DigitOf(todo[2][i])
=============================================================================
