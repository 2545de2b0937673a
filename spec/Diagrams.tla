------------------------------ MODULE Diagrams ------------------------------
(***************************************************************************)
(* The core of the specification: pregroup types, string diagrams as       *)
(* lists of layers, the operations on them and their meaning (Wiring).     *)
(*                                                                         *)
(* A type is a sequence of objects <<name, z>>, z the winding number.      *)
(* A box is a record                                                       *)
(*   [k |-> kind, n |-> name, d |-> dom, c |-> cod, z |-> winding,         *)
(*    dg |-> 0/1 (daggered), f |-> sequence of component diagrams]         *)
(* kinds: "box" "word" "frame" and the structural "cup" "cap" "swap"       *)
(* "spider".  A layer is [L |-> left type, b |-> box, R |-> right type]    *)
(* and a diagram [dom, cod, layers].                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

(* ------------------------------- types -------------------------------- *)
RotOb(ob, z) == <<ob[1], ob[2] + z>>
RotTy(t, z) ==
  LET s == IF z % 2 = 1 THEN Reverse(t) ELSE t
  IN  [i \in 1..Len(s) |-> RotOb(s[i], z)]
TyL(t) == RotTy(t, -1)
TyR(t) == RotTy(t, 1)
RECURSIVE PowTy(_, _)
PowTy(t, n) == IF n <= 0 THEN <<>> ELSE t \o PowTy(t, n - 1)

(* Python slice of a sequence, step 1, possibly negative bounds.           *)
ClampIdx(i, n) == IF i < 0 THEN (IF i + n < 0 THEN 0 ELSE i + n)
                  ELSE (IF i > n THEN n ELSE i)
Slice(s, a, b) == LET n == Len(s)
                      lo == ClampIdx(a, n)
                      hi == ClampIdx(b, n)
                  IN  IF lo >= hi THEN <<>> ELSE SubSeq(s, lo + 1, hi)
Take(s, k) == Slice(s, 0, k)
Drop(s, k) == Slice(s, k, Len(s))

(* ------------------------------- boxes -------------------------------- *)
Structural == {"cup", "cap", "swap", "spider"}
MkBox(k, n, d, c, z) == [k |-> k, n |-> n, d |-> d, c |-> c, z |-> z,
                         dg |-> 0, f |-> <<>>]
MkCap(t1, t2, rev) == MkBox("cap", "CAP", <<>>, t1 \o t2, IF rev THEN 1 ELSE 0)
MkCup(t1, t2, rev) == MkBox("cup", "CUP", t1 \o t2, <<>>, IF rev THEN 1 ELSE 0)
MkSwap(t1, t2)     == MkBox("swap", "SWAP", t1 \o t2, t2 \o t1, 0)
MkSpider(t, a, b)  == MkBox("spider", "SPIDER", PowTy(t, a), PowTy(t, b), 0)

(* The adjunction a cap or cup must satisfy.                               *)
AdjCap(l, r, rev) == IF rev THEN l = TyL(r) ELSE l = TyR(r)
AdjCup(l, r, rev) == IF rev THEN l = TyR(r) ELSE l = TyL(r)

BoxOk(b) ==
  CASE b.k = "cap"  -> /\ b.d = <<>> /\ Len(b.c) = 2
                       /\ AdjCap(<<b.c[1]>>, <<b.c[2]>>, b.z # 0)
    [] b.k = "cup"  -> /\ b.c = <<>> /\ Len(b.d) = 2
                       /\ AdjCup(<<b.d[1]>>, <<b.d[2]>>, b.z # 0)
    [] b.k = "swap" -> /\ Len(b.d) = 2 /\ b.c = <<b.d[2], b.d[1]>>
    [] b.k = "spider" -> \A i \in 1..Len(b.d \o b.c) :
                            (b.d \o b.c)[i] = (b.d \o b.c)[1]
    [] OTHER -> TRUE

RECURSIVE BoxRot(_, _), RotD(_, _)
BoxRot(b, z) ==
  [b EXCEPT !.d = RotTy(b.d, z), !.c = RotTy(b.c, z),
            !.z = CASE b.k \in {"cup", "cap"} -> (b.z + z) % 2
                    [] b.k \in {"swap", "spider"} -> b.z
                    [] OTHER -> b.z + z,
            !.f = [i \in 1..Len(b.f) |->
                     RotD(b.f[IF z % 2 = 1 THEN Len(b.f) + 1 - i ELSE i], z)]]
LayRot(ly, z) ==
  IF z % 2 = 1
  THEN [L |-> RotTy(ly.R, z), b |-> BoxRot(ly.b, z), R |-> RotTy(ly.L, z)]
  ELSE [L |-> RotTy(ly.L, z), b |-> BoxRot(ly.b, z), R |-> RotTy(ly.R, z)]
RotD(d, z) == [dom |-> RotTy(d.dom, z), cod |-> RotTy(d.cod, z),
               layers |-> [i \in 1..Len(d.layers) |-> LayRot(d.layers[i], z)]]

RECURSIVE BoxDag(_), DagD(_)
BoxDag(b) ==
  CASE b.k = "cap" -> [b EXCEPT !.k = "cup", !.n = "CUP", !.d = b.c, !.c = b.d,
                                !.z = 1 - b.z]
    [] b.k = "cup" -> [b EXCEPT !.k = "cap", !.n = "CAP", !.d = b.c, !.c = b.d,
                                !.z = 1 - b.z]
    [] b.k \in {"swap", "spider"} -> [b EXCEPT !.d = b.c, !.c = b.d]
    [] OTHER -> [b EXCEPT !.d = b.c, !.c = b.d, !.dg = 1 - b.dg,
                          !.f = [i \in 1..Len(b.f) |-> DagD(b.f[i])]]
DagD(d) == [dom |-> d.cod, cod |-> d.dom,
            layers |-> [i \in 1..Len(d.layers) |->
               LET ly == d.layers[Len(d.layers) + 1 - i]
               IN  [ly EXCEPT !.b = BoxDag(ly.b)]]]

(* ------------------------------ diagrams ------------------------------ *)
IdD(t) == [dom |-> t, cod |-> t, layers |-> <<>>]
BoxD(b) == [dom |-> b.d, cod |-> b.c,
            layers |-> <<[L |-> <<>>, b |-> b, R |-> <<>>]>>]
LayDom(ly) == ly.L \o ly.b.d \o ly.R
LayCod(ly) == ly.L \o ly.b.c \o ly.R

RECURSIVE WellTyped(_)
WellTyped(d) ==
  LET n == Len(d.layers) IN
  /\ IF n = 0 THEN d.dom = d.cod
     ELSE /\ LayDom(d.layers[1]) = d.dom
          /\ LayCod(d.layers[n]) = d.cod
          /\ \A i \in 1..(n-1) : LayCod(d.layers[i]) = LayDom(d.layers[i+1])
  /\ \A i \in 1..n : /\ BoxOk(d.layers[i].b)
                     /\ \A j \in 1..Len(d.layers[i].b.f) :
                           WellTyped(d.layers[i].b.f[j])

CanThen(a, b) == a.cod = b.dom
ThenD(a, b) == [dom |-> a.dom, cod |-> b.cod, layers |-> a.layers \o b.layers]
Extend(d, l, r) == [dom |-> l \o d.dom \o r, cod |-> l \o d.cod \o r,
  layers |-> [i \in 1..Len(d.layers) |->
     [d.layers[i] EXCEPT !.L = l \o d.layers[i].L, !.R = d.layers[i].R \o r]]]
TensorD(a, b) == ThenD(Extend(a, <<>>, b.dom), Extend(b, a.cod, <<>>))
CanThenAt(a, b, i) == /\ i >= 0 /\ i + Len(b.dom) <= Len(a.cod)
                      /\ SubSeq(a.cod, i + 1, i + Len(b.dom)) = b.dom
ThenAt(a, b, i) == ThenD(a, Extend(b, Take(a.cod, i),
                                   Drop(a.cod, i + Len(b.dom))))

(* Complex structural morphisms, built from atomic ones.                    *)
RECURSIVE CapsFrom(_, _, _, _)
CapsFrom(l, r, rev, i) ==   \* nested caps for l[i..], matched with reversed r
  IF i > Len(l) THEN IdD(<<>>)
  ELSE LET inner == CapsFrom(l, r, rev, i + 1)
           b == MkCap(<<l[i]>>, <<r[Len(r) + 1 - i]>>, rev)
       IN  ThenD(BoxD(b), Extend(inner, <<l[i]>>, <<r[Len(r) + 1 - i]>>))
CapsD(l, r, rev) == CapsFrom(l, r, rev, 1)
RECURSIVE CupsFrom(_, _, _, _)
CupsFrom(l, r, rev, i) ==
  IF i > Len(l) THEN IdD(<<>>)
  ELSE LET inner == CupsFrom(l, r, rev, i + 1)
           b == MkCup(<<l[i]>>, <<r[Len(r) + 1 - i]>>, rev)
       IN  ThenD(Extend(inner, <<l[i]>>, <<r[Len(r) + 1 - i]>>), BoxD(b))
CupsD(l, r, rev) == CupsFrom(l, r, rev, 1)

SwapAt(t, i) ==  \* the layer exchanging wires i and i+1 (1-based) of type t
  [L |-> SubSeq(t, 1, i - 1), b |-> MkSwap(<<t[i]>>, <<t[i+1]>>),
   R |-> SubSeq(t, i + 2, Len(t))]

TransposeD(d, left) ==
  IF left
  THEN ThenD(ThenD(Extend(CapsD(d.dom, TyL(d.dom), FALSE), TyL(d.cod), <<>>),
                   Extend(d, TyL(d.cod), TyL(d.dom))),
             Extend(CupsD(TyL(d.cod), d.cod, FALSE), <<>>, TyL(d.dom)))
  ELSE ThenD(ThenD(Extend(CapsD(TyR(d.dom), d.dom, FALSE), <<>>, TyR(d.cod)),
                   Extend(d, TyR(d.dom), TyR(d.cod))),
             Extend(CupsD(d.cod, TyR(d.cod), FALSE), TyR(d.dom), <<>>))
CurryD(d, n, left) ==
  IF left
  THEN LET base == Take(d.dom, Len(d.dom) - n)
           ex == Drop(d.dom, Len(d.dom) - n)
       IN  ThenD(Extend(CapsD(ex, TyL(ex), FALSE), base, <<>>),
                 Extend(d, <<>>, TyL(ex)))
  ELSE LET base == Drop(d.dom, n)
           ex == Take(d.dom, n)
       IN  ThenD(Extend(CapsD(TyR(ex), ex, FALSE), <<>>, base),
                 Extend(d, TyR(ex), <<>>))

(* ------------------------------- wiring ------------------------------- *)
(* The open hypergraph of a diagram: which ports are joined by a wire.     *)
(* Ports are <<"dom",i>>, <<"cod",i>> and <<name, z, dagger, occurrence,   *)
(* side, i>> for the boxes.  Cups, caps, swaps and spiders only join       *)
(* wires.  Two diagrams over a compact closed category with the same       *)
(* boxes denote the same morphism iff their wirings are equal.             *)

BoxKey(b) == <<b.k, b.n, b.z, b.dg, b.f>>
Occ(d, i) == Cardinality({j \in 1..i : BoxKey(d.layers[j].b) = BoxKey(d.layers[i].b)})

Merge(s, a, b) ==   \* replace class b by class a
  IF a = b THEN s
  ELSE [s EXCEPT !.scan = [i \in DOMAIN s.scan |->
                             IF s.scan[i] = b THEN a ELSE s.scan[i]],
                 !.ports = [i \in DOMAIN s.ports |->
                             IF s.ports[i][2] = b THEN <<s.ports[i][1], a>>
                             ELSE s.ports[i]]]
RECURSIVE MergeAll(_, _)
MergeAll(s, cs) == IF Len(cs) <= 1 THEN s
  ELSE LET s2 == Merge(s, cs[1], cs[2])
       IN  MergeAll(s2, <<cs[1]>> \o
             [i \in 1..(Len(cs) - 2) |-> IF cs[i + 2] = cs[2] THEN cs[1] ELSE cs[i + 2]])

PortLabel(b, occ, side, i) == <<b.k, b.n, b.z, b.dg, b.f, occ, side, i>>

WireStep(s, ly, occ, layerno) ==
  LET off == Len(ly.L)
      nd  == Len(ly.b.d)
      nc  == Len(ly.b.c)
      ins == SubSeq(s.scan, off + 1, off + nd)
      pre == SubSeq(s.scan, 1, off)
      suf == SubSeq(s.scan, off + nd + 1, Len(s.scan))
      b   == ly.b
  IN
  CASE b.k = "swap" -> [s EXCEPT !.scan = pre \o <<ins[2], ins[1]>> \o suf]
    [] b.k = "cup" \/ b.k = "cap" \/ b.k = "spider" ->
         LET c0 == s.next
             s1 == [s EXCEPT !.scan = pre \o [i \in 1..nc |-> c0] \o suf,
                             !.ports = Append(@, <<<<"v", layerno>>, c0>>),
                             !.next = c0 + 1]
         IN  MergeAll(s1, <<c0>> \o ins)
    [] OTHER ->
         [s EXCEPT
            !.scan = pre \o [i \in 1..nc |-> s.next + i - 1] \o suf,
            !.ports = @ \o [i \in 1..nd |-> <<PortLabel(b, occ, "in", i), ins[i]>>]
                        \o [i \in 1..nc |-> <<PortLabel(b, occ, "out", i), s.next + i - 1>>],
            !.next = s.next + nc]

RECURSIVE WireRun(_, _, _)
WireRun(s, d, i) ==
  IF i > Len(d.layers) THEN s
  ELSE WireRun(WireStep(s, d.layers[i], Occ(d, i), i), d, i + 1)

WireFinal(d) ==
  LET n == Len(d.dom)
      s0 == [scan |-> [i \in 1..n |-> i],
             ports |-> [i \in 1..n |-> <<<<"dom", i>>, i>>],
             next |-> n + 1]
      s == WireRun(s0, d, 1)
  IN  s.ports \o [i \in 1..Len(s.scan) |-> <<<<"cod", i>>, s.scan[i]>>]

Classes(ps) ==
  LET cs == {ps[i][2] : i \in DOMAIN ps}
  IN  {{ps[i][1] : i \in {j \in DOMAIN ps : ps[j][2] = c}} : c \in cs}

(* The wiring proper: classes of real ports; loops are counted.            *)
Wiring(d) ==
  LET full == Classes(WireFinal(d))
      real(cl) == {p \in cl : p[1] # "v"}
  IN  [links |-> {real(cl) : cl \in full} \ {{}},
       loops |-> Cardinality({cl \in full : real(cl) = {}})]

(* The non structural boxes, in order / as a multiset.                     *)
RealBoxes(d) == LET bs == [i \in 1..Len(d.layers) |-> d.layers[i].b]
                IN  SelectSeq(bs, LAMBDA b : b.k \notin Structural)
StructBoxes(d) == LET bs == [i \in 1..Len(d.layers) |-> d.layers[i].b]
                  IN  SelectSeq(bs, LAMBDA b : b.k \in Structural)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

SameMeaning(a, b) == /\ a.dom = b.dom /\ a.cod = b.cod
                     /\ SameBag(RealBoxes(a), RealBoxes(b))
                     /\ Wiring(a) = Wiring(b)

(* Permutation: output wire k comes from input wire perm[k] (0-based).      *)
PermLinks(perm) == {{<<"dom", perm[k] + 1>>, <<"cod", k>>} : k \in 1..Len(perm)}
IsPerm(perm, n) == Len(perm) = n /\ {perm[i] : i \in 1..Len(perm)} = 0..(n-1)
=============================================================================
