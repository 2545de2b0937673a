------------------------------ MODULE P03Model ------------------------------
(* The functor laws, checked on the specification's image operator itself. *)
EXTENDS Functors
CONSTANTS MaxLayers, MaxWidth
VARIABLES d, F
n0 == <<<<"n", 0>>>>
s0 == <<<<"s", 0>>>>
a0 == <<<<"a", 0>>>>
b1 == <<<<"b", 1>>>>
Bx == {MkBox("box", "f", n0, s0, 0), MkBox("box", "f", TyL(n0), TyL(s0), -1),
       BoxDag(MkBox("box", "f", n0, s0, 0)),
       MkBox("word", "w", <<>>, n0 \o s0, 0),
       MkCap(n0, TyL(n0), FALSE), MkCap(n0, TyR(n0), TRUE),
       MkCup(n0, TyR(n0), FALSE), MkSwap(n0, s0), MkSpider(n0, 1, 2), MkSpider(n0, 2, 1)}
ObMaps == {[n |-> a0, s |-> b1], [n |-> a0 \o b1, s |-> <<>>], [n |-> a0 \o b1 \o a0, s |-> a0]}
Ar(o) == [f |-> BoxD(MkBox("box", "f2", o.n, o.s, 0)),
          w |-> BoxD(MkBox("word", "w2", <<>>, o.n \o o.s, 0))]
Init == d \in {IdD(n0), IdD(<<>>)} /\ F \in {[ob |-> o, ar |-> Ar(o)] : o \in ObMaps}
Next == /\ Len(d.layers) < MaxLayers
        /\ \E b \in Bx : \E i \in 0..Len(d.cod) :
             /\ CanThenAt(d, BoxD(b), i)
             /\ Len(d.cod) - Len(b.d) + Len(b.c) <= MaxWidth
             /\ d' = ThenAt(d, BoxD(b), i)
        /\ UNCHANGED F
Spec == Init /\ [][Next]_<<d, F>>
Img(x) == FDiag(F.ob, F.ar, x)
Legal == FLegal(F.ob, F.ar, d)
Typed == WellTyped(Img(d))
Dag == SameMeaning(Img(DagD(d)), DagD(Img(d)))
Rot == SameMeaning(Img(RotD(d, 1)), RotD(Img(d), 1)) /\ SameMeaning(Img(RotD(d, -1)), RotD(Img(d), -1))
Split == \A k \in 0..Len(d.layers) :
   LET mid == IF k = Len(d.layers) THEN d.cod ELSE LayDom(d.layers[k + 1])
       x == [dom |-> d.dom, cod |-> mid, layers |-> SubSeq(d.layers, 1, k)]
       y == [dom |-> mid, cod |-> d.cod, layers |-> SubSeq(d.layers, k + 1, Len(d.layers))]
   IN  Img(d) = ThenD(Img(x), Img(y))
Tens == LET g == BoxD(MkBox("box", "f", n0, s0, 0)) IN Img(TensorD(d, g)) = TensorD(Img(d), Img(g))
=============================================================================
