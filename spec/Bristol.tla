------------------------------- MODULE Bristol -------------------------------
(***************************************************************************)
(* The Bristol Fashion file format: well-formedness, the function a file    *)
(* describes, and reading a file into a circuit.                            *)
(*                                                                          *)
(* A file is a record                                                       *)
(*   ng, nw : the two numbers of the first line                             *)
(*   ins    : sizes of the input groups   (second line, after the count)    *)
(*   outs   : sizes of the output groups  (third line, after the count)     *)
(*   lines  : sequence of gate lines [t |-> type, a |-> operands, o |-> results] *)
(* Wires are 0..nw-1; the first Sum(ins) are inputs, the last Sum(outs) are *)
(* outputs.                                                                 *)
(***************************************************************************)
EXTENDS Circuits

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)

FileTypes == {"INV", "XOR", "AND", "OR", "EQ", "EQW"}
Arity(t)  == IF t \in {"XOR", "AND", "OR"} THEN 2 ELSE 1

NumIns(f)  == SumSeq(f.ins)
NumOuts(f) == SumSeq(f.outs)

(* The result wire of line i. *)
Result(f, i) == IF Len(f.lines[i].o) = 1 THEN f.lines[i].o[1] ELSE -1

(* The line that defines a wire: 0 for an input, Never for a wire that no line *)
(* defines, otherwise the number of the first line with that result.  A table   *)
(* for the wires a well-formed file can have; the others are searched for.      *)
Dense(f) == NumIns(f) + Len(f.lines)
DefTable(f) ==
  LET D == Dense(f)
      never == Len(f.lines) + 1
      nin == NumIns(f)
  IN  VSeq(FoldLeft(LAMBDA t, i :
                      LET w == Result(f, i)
                      IN  IF w >= 0 /\ w < D /\ VAt(t, w) = never THEN VSet(t, w, i) ELSE t,
                    VFrom([w \in 1..D |-> IF w <= nin THEN 0 ELSE never]),
                    [i \in 1..Len(f.lines) |-> i]))
DefOf(f, t, w) ==
  IF w < Len(t) THEN t[w + 1]
  ELSE LET s == {i \in 1..Len(f.lines) : Result(f, i) = w}
       IN  IF s = {} THEN Len(f.lines) + 1 ELSE CHOOSE i \in s : \A j \in s : i <= j

LineWF(f, t, i) ==
  LET l == f.lines[i]
  IN  /\ l.t \in FileTypes
      /\ Len(l.o) = 1
      /\ Len(l.a) = Arity(l.t)
      /\ IF l.t = "EQ" THEN l.a[1] \in {0, 1}
         ELSE \A k \in 1..Len(l.a) : DefOf(f, t, l.a[k]) < i

(* What every reader needs: each line is a gate over defined wires, and the  *)
(* input and output wires exist and are defined.  A file that violates this is          *)
(* malformed and must be refused.                                             *)
Readable(f) ==
  LET t == DefTable(f)
  IN  /\ NumIns(f) <= f.nw
      /\ NumOuts(f) <= f.nw
      /\ \A i \in 1..Len(f.lines) : LineWF(f, t, i)
      /\ \A w \in (f.nw - NumOuts(f))..(f.nw - 1) : DefOf(f, t, w) <= Len(f.lines)

(* Full well-formedness (what a writer has to produce): exact counts, every  *)
(* wire defined exactly once.                                                 *)
WellFormed(f) ==
  LET t == DefTable(f)
  IN  /\ f.ng = Len(f.lines)
      /\ f.nw = NumIns(f) + Len(f.lines)
      /\ \A i \in 1..Len(f.lines) : LineWF(f, t, i)
      \* as many lines as wires beyond the inputs: each is defined exactly once
      /\ \A w \in NumIns(f)..(f.nw - 1) : DefOf(f, t, w) \in 1..Len(f.lines)
      /\ NumOuts(f) <= f.nw

(* The values of all wires. *)
Max2(x, y) == IF x < y THEN y ELSE x
FileVals(f, ins, M) ==
  LET Step(acc, l) ==
        VSet(acc, l.o[1],
           CASE l.t = "EQ"  -> (IF l.a[1] = 1 THEN M ELSE 0)
             [] l.t = "EQW" -> VAt(acc, l.a[1])
             [] l.t = "INV" -> GateFn("not", VAt(acc, l.a[1]), 0, M)
             [] l.t = "XOR" -> GateFn("xor", VAt(acc, l.a[1]), VAt(acc, l.a[2]), M)
             [] l.t = "AND" -> GateFn("and", VAt(acc, l.a[1]), VAt(acc, l.a[2]), M)
             [] l.t = "OR"  -> GateFn("or",  VAt(acc, l.a[1]), VAt(acc, l.a[2]), M))
      nin  == NumIns(f)
      size == FoldLeft(LAMBDA n, l : Max2(n, l.o[1] + 1), Max2(f.nw, nin), f.lines)
  IN  VSeq(FoldLeft(Step, VFrom([w \in 1..size |-> IF w <= nin THEN ins[w] ELSE Undef]), f.lines))

FileOuts(f, ins, M) ==
  LET Pick(v) == LET n == NumOuts(f) IN SubSeq(v, f.nw - n + 1, f.nw)
  IN  Force(Pick, FileVals(f, ins, M))

(***************************************************************************)
(* Reading a well-formed file: the circuit c with inputs, gates and outputs  *)
(* appended.  EQW is two inverters and EQ a constant gate.                   *)
(***************************************************************************)
ReadFile(c, f) ==
  LET t    == DefTable(f)
      n    == NumGateIds(c)
      base == n + NumIns(f)
      wide(i) == IF f.lines[i].t = "EQW" THEN 2 ELSE 1
      \* off[i]: number of gates made by lines 1..i
      off  == VSeq(FoldLeft(LAMBDA acc, i : VPush(acc, wide(i) + (IF i = 1 THEN 0 ELSE VAt(acc, i - 2))),
                            VEmpty, [i \in 1..Len(f.lines) |-> i]))
      GateOf(w) == LET d == t[w + 1] IN IF d = 0 THEN n + w ELSE base + off[d] - 1
      first(i) == base + off[i] - wide(i)
      nd(op, a, v, b) == [op |-> op, a |-> a, v |-> v, n |-> 1, b |-> b]
      LineNodes(i) ==
        LET l == f.lines[i]
            b == first(i)
        IN  CASE l.t = "EQ"  -> << nd("const", <<>>, l.a[1], b) >>
              [] l.t = "EQW" -> << nd("not", <<GateOf(l.a[1])>>, 0, b), nd("not", <<b>>, 0, b + 1) >>
              [] l.t = "INV" -> << nd("not", <<GateOf(l.a[1])>>, 0, b) >>
              [] OTHER       -> << nd(CASE l.t = "XOR" -> "xor" [] l.t = "AND" -> "and" [] l.t = "OR" -> "or",
                                      <<GateOf(l.a[1]), GateOf(l.a[2])>>, 0, b) >>
      nodes == VSeq(FoldLeft(LAMBDA acc, i : VPushAll(acc, LineNodes(i)), VEmpty, [i \in 1..Len(f.lines) |-> i]))
      c1 == CInputs(c, NumIns(f))
      c2 == AddNodes(c1, Len(nodes), LAMBDA i : nodes[i])
      neq == Cardinality({i \in 1..Len(f.lines) : f.lines[i].t = "EQ"})
      c3 == [c2 EXCEPT !.nconst = @ + neq, !.ngate = @ + Len(nodes) - neq]
  IN  COutputs(c3, [i \in 1..NumOuts(f) |-> GateOf(f.nw - NumOuts(f) + i - 1)])

(***************************************************************************)
(* The text of a file, as rows of tokens; a token is [n, s]: its text s and   *)
(* the number n it is, or -1 if it is not a number.                           *)
(***************************************************************************)
Nums(row, i, k) == [j \in 1..k |-> row[i + j - 1].n]
AreNums(row, i, k) == Len(row) >= i + k - 1 /\ \A j \in i..(i + k - 1) : row[j].n >= 0

\* A row "k x1 .. xk".
CountedRow(row) == /\ AreNums(row, 1, 1)
                   /\ AreNums(row, 2, row[1].n)

\* Rows of gates: from the fifth on, up to the first blank one.
GateRows(rows) ==
  LET cut == SelectInSeq(SubSeq(rows, 5, Len(rows)), LAMBDA r : Len(r) = 0)
  IN  IF cut = 0 THEN SubSeq(rows, 5, Len(rows)) ELSE SubSeq(rows, 5, 3 + cut)

GateRowOk(row) == /\ AreNums(row, 1, 2)
                  /\ AreNums(row, 3, row[1].n + row[2].n)
                  /\ Len(row) >= 3 + row[1].n + row[2].n

\* Words that stand for a byte that is no text, and for a place from which on the file cannot
\* be read.
Unreadable == {"#FF#", "#IO#"}
Broken(row) == \E i \in DOMAIN row : row[i].s \in Unreadable

\* Every field of the file is there and is a number where one is needed.
Parses(rows) ==
  /\ Len(rows) >= 3
  /\ \A i \in 1..3 : ~Broken(rows[i])
  /\ LET g == GateRows(rows) IN \A i \in 1..Len(g) : ~Broken(g[i])
  /\ AreNums(rows[1], 1, 2)
  /\ CountedRow(rows[2])
  /\ CountedRow(rows[3])
  /\ LET g == GateRows(rows) IN \A i \in 1..Len(g) : GateRowOk(g[i])

ToFile(rows) ==
  [ ng |-> rows[1][1].n, nw |-> rows[1][2].n,
    ins  |-> Nums(rows[2], 2, rows[2][1].n),
    outs |-> Nums(rows[3], 2, rows[3][1].n),
    \* (the concatenation makes TLC evaluate the sequence once)
    lines |-> LET g == GateRows(rows)
              IN  <<>> \o [i \in 1..Len(g) |->
                    LET r == g[i]
                    IN  [ t |-> r[3 + r[1].n + r[2].n].s,
                          a |-> Nums(r, 3, r[1].n),
                          o |-> Nums(r, 3 + r[1].n, r[2].n) ]] ]

\* (The fourth row, which says nothing, may be skipped unread.)
Malformed(rows) == /\ Len(rows) >= 4 => ~Broken(rows[4])
                   /\ ~Parses(rows) \/ ~Readable(ToFile(rows))

\* No surplus tokens or rows: the text is exactly a well-formed file.
Clean(rows) ==
  /\ Parses(rows)
  /\ ~Malformed(rows)
  /\ WellFormed(ToFile(rows))
  /\ Len(rows[1]) = 2
  /\ Len(rows[2]) = 1 + rows[2][1].n
  /\ Len(rows[3]) = 1 + rows[3][1].n
  /\ Len(rows) >= 4 /\ Len(rows[4]) = 0
  /\ LET g == GateRows(rows)
     IN  /\ \A i \in 1..Len(g) : Len(g[i]) = 3 + g[i][1].n + g[i][2].n
         /\ \A i \in (5 + Len(g))..Len(rows) : Len(rows[i]) = 0

\* Reading a file that is not clean, or failing to: the circuit's state is not specified.
Spoil(h) == /\ circs' = [circs EXCEPT ![handles[h]].frozen = TRUE]
            /\ UNCHANGED <<stores, handles>>

ReadRows(h, rows, ok) ==
  IF Clean(rows) THEN ok /\ Update(h, ReadFile(Circ(h), ToFile(rows)))
  ELSE (Malformed(rows) => ~ok) /\ Spoil(h)

(***************************************************************************)
(* What a file written for a circuit must be.                                *)
(***************************************************************************)
WrittenShape(c, f, first, consts) ==
  /\ WellFormed(f)
  /\ f.ins = <<first, c.nin + c.nconst - first>>
  /\ f.outs = <<Len(c.outs)>>
  /\ Len(consts) = c.nconst
  /\ \A i \in 1..Len(consts) : consts[i] \in {0, 1}

ConstLanes(consts, M) == [i \in 1..Len(consts) |-> IF consts[i] = 1 THEN M ELSE 0]

\* The wires wmap (pairs <<gate, wire>>) carry the values of their gates.
WireMapOk(cs, st, ci, f, consts, wmap, ins, M) ==
  LET v == Vals(cs, st, ci, ins, M)
      w == FileVals(f, ins \o ConstLanes(consts, M), M)
  IN  \A i \in 1..Len(wmap) :
        /\ wmap[i][2] < f.nw
        /\ wmap[i][1] < Len(v)
        /\ w[wmap[i][2] + 1] = v[wmap[i][1] + 1]
=============================================================================
