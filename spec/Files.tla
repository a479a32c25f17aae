-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Enumerates *all* small Bristol files -- well-formed and malformed ones -- *)
(* and all corruptions of well-formed ones in one token or row, with what    *)
(* reading must do: be refused, or give the circuit the file describes.      *)
(* Files that are neither (well-formed with surplus tokens, say) are left    *)
(* out: the property does not settle them.                                   *)
(***************************************************************************)
EXTENDS Bristol, Json, CSV, IOUtils, TLC

CONSTANTS InGroups,   \* sizes of the input groups: set of sequences
          OutGroups,
          Types,      \* gate types
          MaxLines,
          MaxWire,    \* greatest wire number in a line
          ExtraWires, \* one more than the error in the number of wires
          OnlyClean,  \* only well-formed files are enumerated (and corrupted)
          Corrupt,    \* corruptions: subset of {"token", "row"}
          Emits       \* files written: subset of {"clean", "malformed"}

\* (a configuration file has no syntax for sequences)
InG1 == { <<>>, <<1>>, <<2>>, <<1, 1>>, <<0, 1>>, <<2, 0>> }
OutG1 == { <<>>, <<1>>, <<2>>, <<1, 1>>, <<0, 1>>, <<3>> }
InG2 == { <<1>>, <<2>> }
OutG2 == { <<1>>, <<2>> }
InG4 == { <<1>>, <<0, 1>>, <<2>>, <<1, 1>>, <<2, 1>>, <<>> }
OutG4 == { <<>>, <<1>>, <<2>>, <<1, 1>>, <<3>>, <<1, 0, 1>> }
InG3 == { <<1, 1>>, <<2>>, <<1>> }
OutG3 == { <<1>>, <<1, 1>> }

VARIABLES file, rows, phase
fvars == <<circs, stores, handles, file, rows, phase>>

Tok(n) == [n |-> n, s |-> ToString(n)]
Word(s) == [n |-> -1, s |-> s]
\* Numbers beyond TLC's: more than any count or wire number of an enumerated file, so that
\* the one that stands for them says the same about the file.  The last one is no number for
\* a machine with 64 bits.
Huge == {[n |-> 1000000000, s |-> t] :
           t \in {"4294967296", "9223372036854775807", "18446744073709551615"}}
        \cup {Word("18446744073709551616"), Word("99999999999999999999999999")}
Toks(s) == [i \in 1..Len(s) |-> Tok(s[i])]
LineRow(l) == <<Tok(Len(l.a)), Tok(Len(l.o))>> \o Toks(l.a) \o Toks(l.o) \o <<Word(l.t)>>
RowsOf(f) == << <<Tok(f.ng), Tok(f.nw)>>, <<Tok(Len(f.ins))>> \o Toks(f.ins),
                <<Tok(Len(f.outs))>> \o Toks(f.outs), <<>> >>
             \o [i \in 1..Len(f.lines) |-> LineRow(f.lines[i])]

Wires == 0..MaxWire
Lines == UNION { {[t |-> t, a |-> a, o |-> <<o>>] : a \in [1..Arity(t) -> Wires], o \in Wires} : t \in Types }
Counted(f, d) == [f EXCEPT !.ng = Len(f.lines), !.nw = NumIns(f) + Len(f.lines) + d]

\* l can be the next line of a well-formed file: a new wire from wires that are there.
Fits(f, l) ==
  LET there == 0..(NumIns(f) - 1) \cup {f.lines[i].o[1] : i \in DOMAIN f.lines}
  IN  /\ l.o[1] \notin there
      /\ l.o[1] < NumIns(f) + MaxLines
      /\ IF l.t = "EQ" THEN l.a[1] \in {0, 1} ELSE \A k \in DOMAIN l.a : l.a[k] \in there

\* The circuit the rows are read into: in the model as in the library it is circuit 1.
FInit == /\ circs = <<EmptyCircuit(1)>> /\ stores = << <<>> >> /\ handles = <<1>>
         /\ \E i \in InGroups : \E o \in OutGroups :
              file = [ng |-> 0, nw |-> 0, ins |-> i, outs |-> o, lines |-> <<>>]
         /\ rows = <<>> /\ phase = "lines"
Same == UNCHANGED <<circs, stores, handles>>

AddLine == /\ phase = "lines" /\ Len(file.lines) < MaxLines
           /\ \E l \in Lines : /\ OnlyClean => Fits(file, l)
                              /\ file' = [file EXCEPT !.lines = Append(@, l)]
           /\ UNCHANGED <<rows, phase>> /\ Same
Close == /\ phase = "lines"
         /\ \E d \in ExtraWires : \E r \in {RowsOf(Counted(file, d - 1))} :
              /\ OnlyClean => Clean(r)
              /\ rows' = r
         /\ phase' = "emit"
         /\ UNCHANGED file /\ Same

Replacements(t) ==
  {Word("x"), Word("-1"), Word("1.0"), Word("0x1")}
  \cup (IF t.n < 0 THEN {Tok(1), Word("NAND"), Word("and")} ELSE {Tok(t.n + 1)})
  \cup (IF t.n > 0 THEN {Tok(t.n - 1)} ELSE {})
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
With(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
CorruptToken ==
  /\ phase = "emit" /\ "token" \in Corrupt /\ Clean(rows)
  /\ \E i \in DOMAIN rows : \E j \in DOMAIN rows[i] :
       \/ \E t \in Replacements(rows[i][j]) : rows' = [rows EXCEPT ![i][j] = t]
       \/ \E t \in Huge : rows' = [rows EXCEPT ![i][j] = t]
       \/ \E u \in Unreadable : \/ rows' = [rows EXCEPT ![i][j] = Word(u)]
                                \/ rows' = [rows EXCEPT ![i] = Append(@, Word(u))]
       \/ rows' = [rows EXCEPT ![i] = Without(@, j)]
       \/ rows' = [rows EXCEPT ![i] = With(@, j, @[j])]
       \/ j > 1 /\ rows' = [rows EXCEPT ![i][j] = rows[i][j - 1], ![i][j - 1] = rows[i][j]]
       \/ rows' = [rows EXCEPT ![i] = SubSeq(@, 1, j - 1)]
  /\ phase' = "corrupted" /\ UNCHANGED file /\ Same
CorruptRow ==
  /\ phase = "emit" /\ "row" \in Corrupt /\ Clean(rows)
  /\ \E i \in DOMAIN rows :
       \/ rows' = Without(rows, i)
       \/ rows' = With(rows, i, rows[i])
       \/ rows' = With(rows, i, <<>>)
       \/ rows' = SubSeq(rows, 1, i - 1)
       \/ rows' = Append(rows, rows[i])
       \/ i > 1 /\ rows' = [rows EXCEPT ![i] = rows[i - 1], ![i - 1] = rows[i]]
       \/ i < Len(rows) /\ rows' = [Without(rows, i + 1) EXCEPT ![i] = rows[i] \o rows[i + 1]]
  /\ phase' = "corrupted" /\ UNCHANGED file /\ Same

-----------------------------------------------------------------------------
Cols(n) == [i \in 1..n |->
              FoldLeft(LAMBDA s, k : s + (IF (k \div 2^(i - 1)) % 2 = 1 THEN 2^k ELSE 0),
                       0, [k \in 1..(2^n) |-> k - 1])]

\* What the file says, and what the circuit built from it computes, agree (checked for every
\* well-formed file that is enumerated).
ReadAgrees ==
  (phase # "lines" /\ Clean(rows)) =>
    LET f == ToFile(rows)
        M == 2^(2^NumIns(f)) - 1
        c == ReadFile(circs[1], f)
    IN  /\ c.nin = NumIns(f)
        /\ OutVals(<<c>>, stores, 1, Cols(NumIns(f)), M) = FileOuts(f, Cols(NumIns(f)), M)

Behaviour ==
  << [op |-> "new", s |-> 0, st |-> "ok"],
     [op |-> "read", h |-> 1, fmt |-> 0, rows |-> rows, st |-> IF Clean(rows) THEN "ok" ELSE "err"] >>
  \o IF ~Clean(rows) THEN <<>>
     ELSE LET f == ToFile(rows)
              n == 2^NumIns(f)
          IN  << [op |-> "lens", h |-> 1, st |-> "ok", r |-> <<NumIns(f), NumOuts(f)>>],
                 [op |-> "eval", h |-> 1, n |-> n, ins |-> Cols(NumIns(f)), st |-> "ok",
                  r |-> FileOuts(f, Cols(NumIns(f)), 2^n - 1)] >>

Emit == /\ phase \in {"emit", "corrupted"}
        /\ Holds(\/ "clean" \in Emits /\ Clean(rows)
                 \/ "malformed" \in Emits /\ Malformed(rows))
        /\ CSVWrite("%1$s", <<ToJson(Behaviour)>>, IOEnv.BEHAVIOURS)
        /\ phase' = "done"
        /\ UNCHANGED <<rows, file>> /\ Same

FNext == AddLine \/ Close \/ CorruptToken \/ CorruptRow \/ Emit
FSpec == FInit /\ [][FNext]_fvars
=============================================================================
