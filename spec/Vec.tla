-------------------------------- MODULE Vec --------------------------------
(***************************************************************************)
(* Sequences indexed from 0 that are extended and updated at a cost that     *)
(* does not grow with their length (a TLC matter: appending to, or updating, *)
(* a plain sequence copies it).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Chunk == 256

\* f: full chunks, c: the last, partial one, n: the length
VEmpty == [f |-> <<>>, c |-> <<>>, n |-> 0]
VPush(v, x) ==
  IF Len(v.c) = Chunk - 1 THEN [f |-> Append(v.f, Append(v.c, x)), c |-> <<>>, n |-> v.n + 1]
                          ELSE [f |-> v.f, c |-> Append(v.c, x), n |-> v.n + 1]
VPushAll(v, s) == FoldLeft(VPush, v, s)
VAt(v, i) == IF i \div Chunk < Len(v.f) THEN v.f[i \div Chunk + 1][(i % Chunk) + 1] ELSE v.c[(i % Chunk) + 1]
VSet(v, i, x) == IF i \div Chunk < Len(v.f) THEN [v EXCEPT !.f[i \div Chunk + 1][(i % Chunk) + 1] = x]
                                            ELSE [v EXCEPT !.c[(i % Chunk) + 1] = x]
VSeq(v) == FoldLeft(LAMBDA s, t : s \o t, <<>>, v.f) \o v.c
VFrom(s) == LET q == Len(s) \div Chunk
            IN  [f |-> <<>> \o [i \in 1..q |-> SubSeq(s, (i - 1) * Chunk + 1, i * Chunk)],
                 c |-> SubSeq(s, q * Chunk + 1, Len(s)), n |-> Len(s)]
=============================================================================
