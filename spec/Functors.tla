------------------------------ MODULE Functors ------------------------------
(* The image of a diagram under a functor given on generators:             *)
(* obm[name] is a type, arm[name] a diagram (the image of the unrotated,   *)
(* undaggered box); a function of the diagram alone - there is no state.   *)
EXTENDS Diagrams
RECURSIVE FTyFrom(_, _, _)
FOb(obm, ob) == RotTy(obm[ob[1]], ob[2])
FTyFrom(obm, t, i) == IF i > Len(t) THEN <<>> ELSE FOb(obm, t[i]) \o FTyFrom(obm, t, i + 1)
FTy(obm, t) == FTyFrom(obm, t, 1)

(* move a block of wires left past another, for swaps of composite types   *)
RECURSIVE FMoveLeft(_, _, _), FSwapFrom(_, _, _)
FMoveLeft(d, from, to) ==
  IF from <= to THEN d
  ELSE FMoveLeft(ThenD(d, [dom |-> d.cod, cod |-> LayCod(SwapAt(d.cod, from - 1)),
            layers |-> <<SwapAt(d.cod, from - 1)>>]), from - 1, to)
FSwapFrom(d, n, k) == IF n + k > Len(d.cod) THEN d ELSE FSwapFrom(FMoveLeft(d, n + k, k), n, k + 1)
FSwap(x, y) == FSwapFrom(IdD(x \o y), Len(x), 1)

(* permutation: output k takes input perm[k] (1-based sequence)             *)
RECURSIVE FPermFrom(_, _, _)
FPermFrom(d, cur, want) == \* cur: which input each current wire is
  LET k == CHOOSE i \in 0..Len(want) :
             (i = Len(want) /\ cur = want) \/ (i < Len(want) /\ cur[i + 1] # want[i + 1]
                /\ \A j \in 1..i : cur[j] = want[j])
  IN  IF k = Len(want) THEN d
      ELSE LET f == CHOOSE i \in 1..Len(cur) : cur[i] = want[k + 1]
               c2 == [i \in 1..Len(cur) |-> IF i <= k THEN cur[i]
                        ELSE IF i = k + 1 THEN cur[f]
                        ELSE IF i <= f THEN cur[i - 1] ELSE cur[i]]
           IN  FPermFrom(FMoveLeft(d, f, k + 1), c2, want)
FPerm(t, perm) == FPermFrom(IdD(t), [i \in 1..Len(t) |-> i], perm)

RECURSIVE TensorSpiders(_, _, _)
TensorSpiders(t, a, b) == IF t = <<>> THEN IdD(<<>>)
  ELSE TensorD(BoxD(MkSpider(<<t[1]>>, a, b)), TensorSpiders(Tail(t), a, b))
FSpider(t, a, b) ==
  LET n == Len(t)
      gather == [k \in 1..(n * a) |-> ((k - 1) \div a) + 1 + n * ((k - 1) % a)]
      spread == [k \in 1..(n * b) |-> ((k - 1) % n) * b + ((k - 1) \div n) + 1]
      s == TensorSpiders(t, a, b)
  IN  ThenD(ThenD(FPerm(PowTy(t, a), gather), s), FPerm(s.cod, spread))

RECURSIVE FBox(_, _, _), FDiag(_, _, _), FLayers(_, _, _, _)
(* custom images of frames wrap the images of the components                *)
FFrame(obm, arm, b) ==
  BoxD([MkBox("frame", b.n, FTy(obm, b.d), FTy(obm, b.c), 0)
          EXCEPT !.f = [i \in 1..Len(b.f) |-> FDiag(obm, arm, b.f[i])]])
FBox(obm, arm, b) ==
  CASE b.k = "cap" -> CapsD(FTy(obm, <<b.c[1]>>), FTy(obm, <<b.c[2]>>), b.z # 0)
    [] b.k = "cup" -> CupsD(FTy(obm, <<b.d[1]>>), FTy(obm, <<b.d[2]>>), b.z # 0)
    [] b.k = "swap" -> FSwap(FTy(obm, <<b.d[1]>>), FTy(obm, <<b.d[2]>>))
    [] b.k = "spider" -> FSpider(FTy(obm, <<(b.d \o b.c)[1]>>), Len(b.d), Len(b.c))
    [] b.dg = 1 -> DagD(FBox(obm, arm, BoxDag(b)))
    [] b.z # 0 -> RotD(FBox(obm, arm, BoxRot(b, -b.z)), b.z)
    [] b.k = "frame" -> FFrame(obm, arm, b)
    [] OTHER -> arm[b.n]
FLayers(obm, arm, ls, i) ==
  IF i > Len(ls) THEN <<>>
  ELSE Extend(FBox(obm, arm, ls[i].b), FTy(obm, ls[i].L), FTy(obm, ls[i].R)).layers
         \o FLayers(obm, arm, ls, i + 1)
FDiag(obm, arm, d) == [dom |-> FTy(obm, d.dom), cod |-> FTy(obm, d.cod),
                       layers |-> FLayers(obm, arm, d.layers, 1)]

(* A diagram is in the functor's domain iff the image of every box it       *)
(* contains has the right type.                                             *)
RECURSIVE FLegal(_, _, _)
FLegal(obm, arm, d) ==
  \A i \in 1..Len(d.layers) :
    LET b == d.layers[i].b
        b0 == IF b.dg = 1 THEN BoxDag(b) ELSE b
        b1 == IF b0.k \in Structural THEN b0 ELSE BoxRot(b0, -b0.z)
    IN  \/ b.k \in Structural
        \/ b.k = "frame" /\ \A j \in 1..Len(b1.f) : FLegal(obm, arm, b1.f[j])
        \/ /\ b.k # "frame"
           /\ arm[b.n].dom = FTy(obm, b1.d)
           /\ arm[b.n].cod = FTy(obm, b1.c)
=============================================================================
