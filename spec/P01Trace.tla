------------------------------ MODULE P01Trace ------------------------------
(***************************************************************************)
(* State machine of the diagram algebra: a pool of diagrams, grown by one   *)
(* operation per step.  Cases are histories recorded from the real code;   *)
(* each event carries the operation, its arguments (indices into the pool, *)
(* types, integers) and everything the code answered.                      *)
(***************************************************************************)
EXTENDS Diagrams, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, pool

(* What the operation prescribes: m = "exact": this very diagram;          *)
(* "wired": a well typed diagram with this meaning built from boxes of     *)
(* the given structural kinds only; "refuse": an error; "val": this value. *)
Exact(d) == [m |-> "exact", d |-> d]
Refuse == [m |-> "refuse"]
Val(v) == [m |-> "val", v |-> v]
Wired(d) == [m |-> "wired", d |-> d]

PermWanted(t, perm) == [m |-> "perm", dom |-> t, perm |-> perm,
                        cod |-> [i \in 1..Len(perm) |-> t[perm[i] + 1]]]

PermBase(d, perm) == \* d followed by a permutation, by its meaning
  [m |-> "permuted", d |-> d, perm |-> perm]

SpiderLinks(t, a, b) == \* spider on a complex type: one class per object
  LET n == Len(t) IN
  {{<<"dom", i + n * j>> : j \in 0..(a-1)} \cup {<<"cod", i + n * j>> : j \in 0..(b-1)} : i \in 1..n}

FaD(x, y) == TensorD(IdD(x), CupsD(TyL(y), y, FALSE))
BaD(x, y) == TensorD(CupsD(x, TyR(x), FALSE), IdD(y))
FcD(x, y, w) == TensorD(IdD(x), TensorD(CupsD(TyL(y), y, FALSE), IdD(TyL(w))))
BcD(x, y, w) == TensorD(IdD(TyR(x)), TensorD(CupsD(y, TyR(y), FALSE), IdD(w)))
(* A concrete swap diagram, each object of y moved left across x.           *)
RECURSIVE MoveLeft(_, _, _)
MoveLeft(d, from, to) == \* move wire at position from down to position to
  IF from <= to THEN d
  ELSE MoveLeft(ThenD(d, [dom |-> d.cod,
            cod |-> LayCod(SwapAt(d.cod, from - 1)),
            layers |-> <<SwapAt(d.cod, from - 1)>>]), from - 1, to)
RECURSIVE SwapDFrom(_, _, _)
SwapDFrom(d, n, k) == IF n + k > Len(d.cod) THEN d
                      ELSE SwapDFrom(MoveLeft(d, n + k, k), n, k + 1)
SwapD(x, y) == SwapDFrom(IdD(x \o y), Len(x), 1)
FxD(x, y, w) ==
  ThenD(TensorD(IdD(x), TensorD(SwapD(TyL(y), TyR(w)), IdD(y))),
        TensorD(SwapD(x, TyR(w)), CupsD(TyL(y), y, FALSE)))
BxD(x, y, w) ==
  ThenD(TensorD(IdD(y), TensorD(SwapD(TyL(x), TyR(y)), IdD(w))),
        TensorD(CupsD(y, TyR(y), FALSE), SwapD(TyL(x), w)))

RECURSIVE WordsD(_)
WordsD(ws) == IF ws = <<>> THEN IdD(<<>>)
  ELSE TensorD(BoxD(MkBox("word", ws[1][1], <<>>, ws[1][2], 0)), WordsD(Tail(ws)))
RECURSIVE CupsOn(_, _, _)   \* scan: original indices of the open wires of d
CupsOn(d, scan, cs) == IF cs = <<>> THEN d
  ELSE LET i == CHOOSE i \in 1..Len(scan) : scan[i] = cs[1][1]
           b == MkCup(<<d.cod[i]>>, <<d.cod[i + 1]>>, FALSE)
       IN  CupsOn(ThenAt(d, BoxD(b), i - 1),
                  SubSeq(scan, 1, i - 1) \o SubSeq(scan, i + 2, Len(scan)), Tail(cs))
PregroupD(ws, cs) == LET d == WordsD(ws)
                     IN  CupsOn(d, [i \in 1..Len(d.cod) |-> i - 1], cs)

TyReplace(t, o, i) == SubSeq(t, 1, i) \o o \o SubSeq(t, i + 2, Len(t))
TyInsert(t, o, i) == SubSeq(t, 1, i) \o o \o SubSeq(t, i + 1, Len(t))

Pyth(i, n) == IF i < 0 THEN i + n ELSE i

Expected(e, P) ==
  LET a == e.a IN
  CASE e.op = "given"  -> Exact(e.d)   \* a diagram given by construction
    [] e.op = "id"     -> Exact(IdD(a[1]))
    [] e.op = "mkbox"  -> Exact(BoxD(MkBox("box", a[1], a[2], a[3], a[4])))
    [] e.op = "mkword" -> Exact(BoxD(MkBox("word", a[1], <<>>, a[2], a[3])))
    [] e.op = "then"   -> IF CanThen(P[a[1]], P[a[2]])
                          THEN Exact(ThenD(P[a[1]], P[a[2]])) ELSE Refuse
    [] e.op = "then3"  -> IF CanThen(P[a[1]], P[a[2]]) /\ CanThen(P[a[2]], P[a[3]])
                          THEN Exact(ThenD(ThenD(P[a[1]], P[a[2]]), P[a[3]])) ELSE Refuse
    [] e.op = "tensor" -> Exact(TensorD(P[a[1]], P[a[2]]))
    [] e.op = "tensor3" -> Exact(TensorD(TensorD(P[a[1]], P[a[2]]), P[a[3]]))
    [] e.op = "tensorty" -> Exact(Extend(P[a[1]], <<>>, a[2]))
    [] e.op = "tytensor" -> Exact(Extend(P[a[1]], a[2], <<>>))
    [] e.op = "then_at" -> IF CanThenAt(P[a[1]], P[a[2]], a[3])
                          THEN Exact(ThenAt(P[a[1]], P[a[2]], a[3])) ELSE Refuse
    [] e.op = "rotate" -> Exact(RotD(P[a[1]], a[2]))
    [] e.op = "dagger" -> Exact(DagD(P[a[1]]))
    [] e.op = "transpose" -> Wired(TransposeD(P[a[1]], a[2]))
    [] e.op = "curry"  -> Wired(CurryD(P[a[1]], a[2], a[3]))
    [] e.op = "slice"  ->
         LET d == P[a[1]]
             n == Len(d.layers)
             lo == ClampIdx(a[2], n)
             hi == ClampIdx(a[3], n)
             ls == Slice(d.layers, a[2], a[3])
             at(i) == IF i >= n THEN d.cod ELSE LayDom(d.layers[i + 1])
         IN  IF lo < hi THEN Exact([dom |-> at(lo), cod |-> at(hi), layers |-> ls])
             ELSE Exact(IdD(at(lo)))
    [] e.op = "revslice" -> Exact(DagD(P[a[1]]))
    [] e.op = "partrev" -> \* d[hi:lo:-1], hi > lo both in range: layers hi..lo+1
         LET d == P[a[1]]
             ls == SubSeq(d.layers, a[3] + 2, a[2] + 1)
         IN  Exact(DagD([dom |-> LayDom(ls[1]), cod |-> LayCod(ls[Len(ls)]), layers |-> ls]))
    [] e.op = "index"  ->
         LET d == P[a[1]]
             n == Len(d.layers)
         IN  IF a[2] >= n \/ a[2] < -n THEN Refuse
             ELSE LET ly == d.layers[Pyth(a[2], n) + 1]
                  IN  Exact([dom |-> LayDom(ly), cod |-> LayCod(ly), layers |-> <<ly>>])
    [] e.op = "caps"   -> IF AdjCap(a[1], a[2], a[3]) THEN Wired(CapsD(a[1], a[2], a[3])) ELSE Refuse
    [] e.op = "cups"   -> IF AdjCup(a[1], a[2], a[3]) THEN Wired(CupsD(a[1], a[2], a[3])) ELSE Refuse
    [] e.op = "cap_to_right" -> LET r == IF a[2] THEN TyR(a[1]) ELSE TyL(a[1]) IN Wired(CapsD(a[1], r, a[2]))
    [] e.op = "cap_to_left"  -> LET x == IF a[2] THEN TyL(a[1]) ELSE TyR(a[1]) IN Wired(CapsD(x, a[1], a[2]))
    [] e.op = "cup_to_right" -> LET r == IF a[2] THEN TyL(a[1]) ELSE TyR(a[1]) IN Wired(CupsD(a[1], r, a[2]))
    [] e.op = "cup_to_left"  -> LET x == IF a[2] THEN TyR(a[1]) ELSE TyL(a[1]) IN Wired(CupsD(x, a[1], a[2]))
    [] e.op = "swap"   -> Wired(SwapD(a[1], a[2]))
    [] e.op = "spider" -> [m |-> "spider", t |-> a[1], a |-> a[2], b |-> a[3]]
    [] e.op = "permutation" -> IF IsPerm(a[2], Len(a[1])) THEN PermWanted(a[1], a[2]) ELSE Refuse
    [] e.op = "permuted" -> IF IsPerm(a[2], Len(P[a[1]].cod)) THEN PermBase(P[a[1]], a[2]) ELSE Refuse
    [] e.op = "pregroup" -> Exact(PregroupD(a[1], a[2]))
    [] e.op = "fa" -> Wired(FaD(a[1], a[2]))
    [] e.op = "ba" -> Wired(BaD(a[1], a[2]))
    [] e.op = "fc" -> Wired(FcD(a[1], a[2], a[3]))
    [] e.op = "bc" -> Wired(BcD(a[1], a[2], a[3]))
    [] e.op = "fx" -> Wired(FxD(a[1], a[2], a[3]))
    [] e.op = "bx" -> Wired(BxD(a[1], a[2], a[3]))
    \* observations
    [] e.op = "obs" -> Val([dom |-> P[a[1]].dom, cod |-> P[a[1]].cod,
          n |-> Len(P[a[1]].layers), is_id |-> Len(P[a[1]].layers) = 0,
          boxes |-> [i \in 1..Len(P[a[1]].layers) |-> P[a[1]].layers[i].b],
          offsets |-> [i \in 1..Len(P[a[1]].layers) |-> Len(P[a[1]].layers[i].L)]])
    [] e.op = "eq" -> Val([eq |-> P[a[1]] = P[a[2]],
                           hash |-> IF P[a[1]] = P[a[2]] THEN TRUE ELSE e.v.hash])
    [] e.op = "is_pregroup" ->
         LET d == P[a[1]]
             ks == [i \in 1..Len(d.layers) |-> d.layers[i].b.k]
             w == {i \in 1..Len(ks) : ks[i] = "word" /\ d.layers[i].b.dg = 0}
         IN  Val(/\ d.dom = <<>>
                 /\ \E m \in 0..Len(ks) :
                      /\ \A i \in 1..m : i \in w /\ d.layers[i].R = <<>>
                      /\ \A i \in (m+1)..Len(ks) : ks[i] \in {"cup", "swap"})
    [] e.op = "pool" -> Val(P)      \* every operand is what it was
    \* types
    [] e.op = "ty_rotate" -> Val(RotTy(a[1], a[2]))
    [] e.op = "ty_tensor" -> Val(a[1] \o a[2])
    [] e.op = "ty_over"   -> Val(a[1] \o TyL(a[2]))
    [] e.op = "ty_under"  -> Val(TyR(a[1]) \o a[2])
    [] e.op = "ty_pow"    -> Val(PowTy(a[1], a[2]))
    [] e.op = "ty_slice"  -> Val(Slice(a[1], a[2], a[3]))
    [] e.op = "ty_rev"    -> Val(Reverse(a[1]))
    [] e.op = "ty_unwind" -> Val(<<<<a[1][1][1], 0>>>>)
    [] e.op = "ty_count"  -> Val(Count(a[1], a[2][1]))
    [] e.op = "ty_replace" -> Val(TyReplace(a[1], a[2], a[3]))
    [] e.op = "ty_insert"  -> Val(TyInsert(a[1], a[2], a[3]))
    [] OTHER -> [m |-> "unknown"]

IdLinks(t) == {{<<"dom", i>>, <<"cod", i>>} : i \in 1..Len(t)}
OnlyKinds(d, ks) == \A i \in 1..Len(d.layers) : d.layers[i].b.k \in ks

(* The clauses an answer breaks.                                            *)
Bad(e, x) ==
  CASE x.m = "refuse" -> IF e.ok THEN {"accepted-ill-typed"} ELSE
                         IF e.err = "Timeout" THEN {"no-termination"} ELSE {}
    [] ~e.ok -> {"refused-legal"}
    [] x.m = "exact" -> IF e.d = x.d THEN {}
         ELSE (IF WellTyped(e.d) THEN {} ELSE {"ill-typed"})
           \cup (IF e.d.dom = x.d.dom /\ e.d.cod = x.d.cod THEN {} ELSE {"dom-cod"})
           \cup {"not-as-prescribed"}
    [] x.m = "wired" ->
          (IF WellTyped(e.d) THEN
             (IF e.d.dom = x.d.dom /\ e.d.cod = x.d.cod THEN
                (IF RealBoxes(e.d) = RealBoxes(x.d) THEN {} ELSE {"boxes"})
                \cup (IF SameBag(StructBoxes(e.d), StructBoxes(x.d)) THEN {} ELSE {"structure"})
                \cup (IF Wiring(e.d) = Wiring(x.d) THEN {} ELSE {"wiring"})
              ELSE {"dom-cod"})
           ELSE {"ill-typed"})
    [] x.m = "perm" ->
          (IF ~WellTyped(e.d) THEN {"ill-typed"}
           ELSE IF e.d.dom # x.dom \/ e.d.cod # x.cod THEN {"dom-cod"}
           ELSE (IF OnlyKinds(e.d, {"swap"}) THEN {} ELSE {"structure"})
             \cup (IF Wiring(e.d).links = PermLinks(x.perm) THEN {} ELSE {"wiring"}))
    [] x.m = "permuted" ->
          LET n == Len(x.d.layers)
              tail == [dom |-> x.d.cod, cod |-> e.d.cod, layers |-> SubSeq(e.d.layers, n + 1, Len(e.d.layers))]
          IN (IF ~WellTyped(e.d) THEN {"ill-typed"}
              ELSE IF Len(e.d.layers) < n \/ SubSeq(e.d.layers, 1, n) # x.d.layers THEN {"not-as-prescribed"}
              ELSE IF e.d.cod # [i \in 1..Len(x.perm) |-> x.d.cod[x.perm[i] + 1]] THEN {"dom-cod"}
              ELSE (IF OnlyKinds(tail, {"swap"}) THEN {} ELSE {"structure"})
                \cup (IF Wiring(tail).links = PermLinks(x.perm) THEN {} ELSE {"wiring"}))
    [] x.m = "spider" ->
          (IF ~WellTyped(e.d) THEN {"ill-typed"}
           ELSE IF e.d.dom # PowTy(x.t, x.a) \/ e.d.cod # PowTy(x.t, x.b) THEN {"dom-cod"}
           ELSE (IF OnlyKinds(e.d, {"swap", "spider"}) THEN {} ELSE {"structure"})
             \cup (IF Wiring(e.d).links = SpiderLinks(x.t, x.a, x.b) \ {{}} THEN {} ELSE {"wiring"}))
    [] x.m = "val" -> IF e.v = x.v THEN {} ELSE {"value"}
    [] OTHER -> {"unknown-operation"}

DiagOps == {"exact", "wired", "perm", "permuted", "spider"}

Init == c \in 1..Len(Cases) /\ l = 1 /\ pool = <<>>
Step(e) ==
  LET x == Expected(e, pool)
      bad == Bad(e, x)
  IN  /\ IF x.m \in DiagOps /\ e.ok THEN pool' = Append(pool, e.d) ELSE pool' = pool
      /\ \A b \in bad : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o ":" \o b \o "|event " \o ToString(l))
Next == /\ l <= Len(Cases[c].events)
        /\ Step(Cases[c].events[l])
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, pool>>
=============================================================================
