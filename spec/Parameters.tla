----------------------------- MODULE Parameters -----------------------------
(***************************************************************************)
(* Symbols in diagrams.  The data of the pieces of a diagram, in order, are *)
(* a sequence of                                                            *)
(*   [s |-> name, d, c, m]   a symbol of size d * c, times m/1000           *)
(*   [s |-> "", v |-> ints]  numbers (thousandths)                          *)
(*   [s |-> "[]", of |-> <<data>>]  an array that contains symbols          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
IsSym(x) == x.s \notin {"", "[]"}
Sym(x) == <<x.s, x.d, x.c>>
RECURSIVE Free(_)
Free(x) == IF IsSym(x) THEN {Sym(x)} ELSE IF x.s = "" THEN {} ELSE UNION {Free(x.of[i]) : i \in 1..Len(x.of)}
FreeOf(occs) == UNION {Free(occs[i]) : i \in 1..Len(occs)}
(* the value given for a symbol, times its factor                           *)
Pos(syms, x) == {i \in 1..Len(syms) : <<syms[i].s, syms[i].d, syms[i].c>> = Sym(x)}
RECURSIVE Given(_, _, _)
Given(x, syms, vals) ==
  IF x.s = "" THEN x
  ELSE IF IsSym(x) THEN
         IF Pos(syms, x) = {} THEN x
         ELSE LET v == vals[CHOOSE i \in Pos(syms, x) : TRUE]
              IN  [s |-> "", v |-> [k \in 1..Len(v) |-> v[k] * x.m]]
  ELSE LET of == [i \in 1..Len(x.of) |-> Given(x.of[i], syms, vals)]
       IN  IF \A i \in 1..Len(of) : of[i].s = "" THEN [s |-> "", v |-> FlattenSeq([i \in 1..Len(of) |-> of[i].v])]
           ELSE [s |-> "[]", of |-> of]
AllGiven(occs, syms, vals) == [i \in 1..Len(occs) |-> Given(occs[i], syms, vals)]
=============================================================================
