------------------------------- MODULE Readers -------------------------------
(* The documented shape of each reader's diagram.                            *)
EXTENDS CCG
D == INSTANCE Diagrams
WordB(w, t) == D!MkBox("word", w, <<>>, t, 0)
Row(start, ws, t) == FoldLeft(LAMBDA acc, w : D!TensorD(acc, D!BoxD(WordB(w, t))), start, ws)
(* the combining diagram works on the leftmost wires until one is left       *)
RECURSIVE Combine(_, _, _)
Combine(d, comb, fuel) ==
  IF Len(d.cod) <= 1 THEN [ok |-> TRUE, d |-> d]
  ELSE IF fuel = 0 THEN [ok |-> FALSE, d |-> d]
  ELSE IF ~D!CanThenAt(d, comb, 0) THEN [ok |-> FALSE, d |-> d]
  ELSE Combine(D!ThenAt(d, comb, 0), comb, fuel - 1)
LinearD(start, comb, ws, t) == Combine(Row(start, ws, t), comb, 60)
SpidersD(ws, t) == LET r == Row(D!IdD(<<>>), ws, t)
                   IN  D!ThenD(r, D!BoxD(D!MkSpider(t, Len(ws), 1)))
(* a tree of boxes over the derivation                                       *)
BoxName(t, mode) ==
  CASE mode = "NO_TYPE" -> "UNIBOX"
    [] mode = "RULE_ONLY" -> t.rule
    [] mode = "HEIGHT" -> "layer_" \o ToString(HeightT(t))
    [] mode = "RULE_TYPE" -> t.rule \o "(" \o (IF Len(t.ch) = 1 THEN CatStr(t.ch[1].cat)
                                             ELSE CatStr(t.ch[1].cat) \o ", " \o CatStr(t.ch[2].cat)) \o ")"
RECURSIVE TreeD(_, _, _)
TreeD(t, mode, wt) ==
  IF t.ch = <<>> THEN D!BoxD(WordB(t.w, wt))
  ELSE LET kids == FoldLeft(LAMBDA acc, x : D!TensorD(acc, TreeD(x, mode, wt)), D!IdD(<<>>), t.ch)
       IN  D!ThenD(kids, D!BoxD(D!MkBox("box", BoxName(t, mode), D!PowTy(wt, Len(t.ch)), wt, 0)))
=============================================================================
