------------------------------ MODULE P01Laws ------------------------------
(***************************************************************************)
(* The laws the algebra must satisfy, checked on the specification itself  *)
(* over all diagrams with at most MaxLayers layers over a small signature. *)
(* The diagrams are grown by the transitions; the laws are invariants.     *)
(***************************************************************************)
EXTENDS Diagrams
CONSTANTS MaxLayers, MaxWidth
VARIABLES d
n0 == <<<<"n", 0>>>>
s0 == <<<<"s", 0>>>>
Doms == {<<>>, n0, n0 \o s0, n0 \o TyR(n0), TyL(s0) \o s0}
Boxes == {MkBox("box", "f", n0, s0, 0), MkBox("box", "g", s0, n0 \o n0, 0),
          MkBox("word", "w", <<>>, TyR(n0) \o s0, 0),
          MkCap(n0, TyL(n0), FALSE), MkCap(TyR(n0), n0, FALSE),
          MkCup(n0, TyR(n0), FALSE), MkCup(TyL(n0), n0, FALSE),
          MkSwap(n0, s0), MkSwap(n0, n0), MkSpider(n0, 2, 1), MkSpider(n0, 1, 2)}
Init == d \in {IdD(t) : t \in Doms}
Next == /\ Len(d.layers) < MaxLayers
        /\ \E b \in Boxes : \E i \in 0..Len(d.cod) :
             /\ CanThenAt(d, BoxD(b), i)
             /\ Len(d.cod) - Len(b.d) + Len(b.c) <= MaxWidth
             /\ d' = ThenAt(d, BoxD(b), i)
Spec == Init /\ [][Next]_d

Typed == WellTyped(d) /\ WellTyped(DagD(d)) /\ WellTyped(RotD(d, 1)) /\ WellTyped(RotD(d, -1))
DagInvolution == DagD(DagD(d)) = d
RotInverse == RotD(RotD(d, 1), -1) = d /\ RotD(RotD(d, -1), 1) = d
RotDouble == RotD(RotD(d, 1), 1) = RotD(d, 2)
TransposeTyped == /\ WellTyped(TransposeD(d, TRUE)) /\ WellTyped(TransposeD(d, FALSE))
                  /\ TransposeD(d, TRUE).dom = TyL(d.cod)
                  /\ TransposeD(d, FALSE).cod = TyR(d.dom)
(* yanking: transposing left then right is the identity up to meaning      *)
Yank == LET t == TransposeD(TransposeD(d, TRUE), FALSE)
        IN  Len(d.layers) <= 2 => SameMeaning(t, d)
(* interchange: sliding a box past d on a parallel wire keeps the meaning  *)
Interchange ==
  LET f == BoxD(MkBox("box", "x", s0, n0, 0))
      a == ThenD(Extend(d, <<>>, s0), Extend(f, d.cod, <<>>))
      b == ThenD(Extend(f, d.dom, <<>>), Extend(d, <<>>, n0))
  IN  SameMeaning(a, b) /\ TensorD(d, f) = a
(* a box slid through a swap                                               *)
SwapNatural ==
  LET f == BoxD(MkBox("box", "x", s0, n0, 0))
      a == ThenD(Extend(f, <<>>, s0), BoxD(MkSwap(n0, s0)))
      b == ThenD(BoxD(MkSwap(s0, s0)), Extend(f, s0, <<>>))
  IN  Wiring(a) = Wiring(b)
(* dagger turns the wiring upside down *)
FlipLabel(p) == CASE p[1] = "dom" -> <<"cod", p[2]>>
                  [] p[1] = "cod" -> <<"dom", p[2]>>
                  [] OTHER -> <<p[1], p[2], p[3], 1 - p[4], p[5], p[6],
                                IF p[7] = "in" THEN "out" ELSE "in", p[8]>>
Unique == \A i, j \in 1..Len(d.layers) : (i # j /\ d.layers[i].b.k \notin Structural)
              => d.layers[i].b # d.layers[j].b
DagWiring == Unique => LET w == Wiring(d) IN
  Wiring(DagD(d)) = [links |-> {{FlipLabel(p) : p \in cl} : cl \in w.links}, loops |-> w.loops]
(* the wiring is total: every boundary port is in exactly one class *)
Total == LET w == Wiring(d).links IN
  \A i \in 1..Len(d.dom) : Cardinality({cl \in w : <<"dom", i>> \in cl}) = 1
=============================================================================
