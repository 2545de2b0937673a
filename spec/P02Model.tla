------------------------------ MODULE P02Model ------------------------------
(***************************************************************************)
(* Rewriting as a transition system: build any small diagram, then apply   *)
(* interchanges and yanks in every order.  Meaning and typing are          *)
(* invariant, yanking only shrinks, and every rewrite sequence that ends   *)
(* with no snake ends in a diagram with the same meaning.                  *)
(***************************************************************************)
EXTENDS Diagrams
CONSTANTS MaxLayers, MaxWidth, MaxSteps
VARIABLES d, orig, phase, steps
vars == <<d, orig, phase, steps>>
n0 == <<<<"n", 0>>>>
s0 == <<<<"s", 0>>>>
Boxes == {MkBox("box", "f", n0, s0, 0), MkBox("box", "g", <<>>, n0, 0),
          MkCap(n0, TyL(n0), FALSE), MkCap(TyR(n0), n0, FALSE),
          MkCap(n0, TyR(n0), TRUE),
          MkCup(n0, TyR(n0), FALSE), MkCup(TyL(n0), n0, FALSE),
          MkCup(TyR(n0), n0, TRUE)}
Init == d \in {IdD(n0), IdD(n0 \o TyR(n0)), IdD(<<>>)} /\ orig = d /\ phase = "build" /\ steps = 0
Build == /\ phase = "build" /\ Len(d.layers) < MaxLayers
         /\ \E b \in Boxes : \E i \in 0..Len(d.cod) :
              /\ CanThenAt(d, BoxD(b), i)
              /\ b.k = "box" => \A j \in 1..Len(d.layers) : d.layers[j].b # b
              /\ Len(d.cod) - Len(b.d) + Len(b.c) <= MaxWidth
              /\ d' = ThenAt(d, BoxD(b), i)
         /\ orig' = d' /\ UNCHANGED <<phase, steps>>
Start == phase = "build" /\ phase' = "rewrite" /\ UNCHANGED <<d, orig, steps>>
(* exchange layers i and i+1 when they touch disjoint wires *)
Swapped(i) ==
  LET a == d.layers[i]
      b == d.layers[i + 1]
      oa == Len(a.L)
      ob == Len(b.L)
  IN  IF ob >= oa + Len(a.b.c)
      THEN LET mid == SubSeq(b.L, oa + Len(a.b.c) + 1, ob)
           IN  << [L |-> a.L \o a.b.d \o mid, b |-> b.b, R |-> b.R],
                  [L |-> a.L, b |-> a.b, R |-> mid \o b.b.c \o b.R] >>
      ELSE LET mid == SubSeq(a.L, ob + Len(b.b.d) + 1, oa)
           IN  << [L |-> b.L, b |-> b.b, R |-> mid \o a.b.d \o a.R],
                  [L |-> b.L \o b.b.c \o mid, b |-> a.b, R |-> a.R] >>
CanSwap(i) == LET oa == Len(d.layers[i].L)
                  ob == Len(d.layers[i + 1].L)
              IN  \/ ob >= oa + Len(d.layers[i].b.c)
                  \/ oa >= ob + Len(d.layers[i + 1].b.d)
Interchange == /\ phase = "rewrite" /\ steps < MaxSteps
               /\ \E i \in 1..(Len(d.layers) - 1) :
                    /\ CanSwap(i)
                    /\ LET s == Swapped(i) IN
                       d' = [d EXCEPT !.layers = SubSeq(@, 1, i - 1) \o s \o SubSeq(@, i + 2, Len(@))]
               /\ steps' = steps + 1 /\ UNCHANGED <<orig, phase>>
Yank == /\ phase = "rewrite"
        /\ \E i \in 1..(Len(d.layers) - 1) :
             LET a == d.layers[i]
                 b == d.layers[i + 1]
             IN  /\ a.b.k = "cap" /\ b.b.k = "cup" /\ a.b.z = b.b.z
                 /\ \/ Len(b.L) = Len(a.L) + 1 \/ Len(b.L) + 1 = Len(a.L)
                 /\ d' = [d EXCEPT !.layers = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 2, Len(@))]
        /\ UNCHANGED <<orig, phase, steps>>
Next == Build \/ Start \/ Interchange \/ Yank
Spec == Init /\ [][Next]_vars
Typed == WellTyped(d)
Meaning == SameMeaning(d, orig)
Shrinks == [][Len(d'.layers) # Len(d.layers) /\ phase = "rewrite"
              => Len(d'.layers) = Len(d.layers) - 2]_vars
=============================================================================
