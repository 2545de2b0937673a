------------------------------ MODULE AnsatzT ------------------------------
(***************************************************************************)
(* Tensor ansätze.  Every box class has pieces (arrays of Gaussian         *)
(* integers); its value:                                                   *)
(*  Tensor : the one piece, reshaped to the box.                           *)
(*  MPS    : small boxes as Tensor; otherwise the domain is bent to the    *)
(*           left or right of the codomain, the legs cut into runs of      *)
(*           max_order - 2, one piece per run, neighbours sharing a bond.  *)
(*  Spider : likewise with runs overlapping in one leg, which is shared.   *)
(* Types are sequences of [n, z]; ob[n] is the dimension list of n, listed *)
(* in reverse for adjoints of odd order.                                   *)
(***************************************************************************)
EXTENDS Tensors
DimOf(ob, o) == IF o.z % 2 = 1 THEN Rev(ob[o.n]) ELSE ob[o.n]
Dims(ob, t) == FoldLeft(LAMBDA a, o : a \o DimOf(ob, o), <<>>, t)
Size(ob, t) == Prod(Dims(ob, t))
Adj(t, k) == [i \in 1..Len(t) |-> [t[Len(t) + 1 - i] EXCEPT !.z = @ + k]]
Less(a, b) == IF a < b THEN a ELSE b
(* the legs of a big box, after bending *)
Legs(cfg, x) == IF x.dom = <<>> THEN x.cod
                ELSE IF cfg.left THEN Adj(x.dom, 1) \o x.cod ELSE x.cod \o Adj(x.dom, -1)
Small(cfg, x) == cfg.a = "Tensor" \/ Len(x.dom) + Len(x.cod) <= cfg.order
(* the pieces as [i, b, e, j]: legs b..e, i / j: bond before / after          *)
Runs(cfg, x) ==
  LET n == Len(Legs(cfg, x))
      s == IF cfg.a = "MPS" THEN cfg.order - 2 ELSE cfg.order - 1
      m == IF cfg.a = "MPS" THEN (n + s - 1) \div s ELSE (n - 1 + s - 1) \div s
  IN  [i \in 1..m |-> IF cfg.a = "MPS"
                      THEN [b |-> (i - 1) * s + 1, e |-> Less(i * s, n), i |-> i > 1, j |-> i < m]
                      ELSE [b |-> (i - 1) * s + 1, e |-> Less(i * s + 1, n), i |-> FALSE, j |-> FALSE]]
PieceTypes(cfg, x) ==   \* [d, c] of every piece; the bond is the type "B"
  IF Small(cfg, x) THEN <<[d |-> x.dom, c |-> x.cod]>>
  ELSE LET L == Legs(cfg, x)
           r == Runs(cfg, x)
           B(z) == [n |-> "B", z |-> z]
       IN  [i \in 1..Len(r) |-> [d |-> <<>>,
              c |-> (IF r[i].i THEN <<B(1)>> ELSE <<>>) \o SubSeq(L, r[i].b, r[i].e)
                    \o (IF r[i].j THEN <<B(0)>> ELSE <<>>)]]
(* flow of a piece: even outputs and odd inputs are outgoing *)
Flow(ob, t) ==
  LET sel(s, odd) == SelectSeq(s, LAMBDA o : (o.z % 2 = 1) = odd)
  IN  <<Size(ob, sel(t.c, TRUE) \o sel(t.d, FALSE)), Size(ob, sel(t.c, FALSE) \o sel(t.d, TRUE))>>
State(ob, cfg, x) ==    \* the array of a big box over its legs
  LET L == Legs(cfg, x)
      r == Runs(cfg, x)
      step(T, i) ==     \* T: rows prefix, cols bond (MPS) / shared leg (Spider)
        LET p == x.pieces[i]
        IN  IF cfg.a = "MPS"
            THEN LET cN == Size(ob, SubSeq(L, r[i].b, r[i].e))
                     bN == IF r[i].j THEN cfg.bond ELSE 1
                     m == MMul(T, Mat(T.c, cN * bN, p))
                 IN  Mat(m.r * cN, bN, m.v)
            ELSE LET D == Size(ob, SubSeq(L, r[i].b, r[i].b))
                     S == Size(ob, SubSeq(L, r[i].e, r[i].e))
                     K == Size(ob, SubSeq(L, r[i].b + 1, r[i].e))
                 IN  Mat((T.r * D * K) \div S, S,
                         [q \in 1..(T.r * D * K) |->
                            LET k == (q - 1) % K
                                s == ((q - 1) \div K) % D
                                a == (q - 1) \div (K * D)
                            IN  GMul(At(T, a, s), p[s * K + k + 1])])
      first == IF cfg.a = "MPS" THEN Eye(1)
               ELSE LET D == Size(ob, SubSeq(L, 1, 1)) IN Mat(1, D, [k \in 1..D |-> G1])
  IN  FoldLeft(step, first, [i \in 1..Len(r) |-> i]).v
ClassMat(ob, cfg, x) ==
  LET R == Size(ob, x.dom)
      C == Size(ob, x.cod)
  IN  IF Small(cfg, x) THEN Mat(R, C, x.pieces[1])
      ELSE LET v == State(ob, cfg, x)
               mir(i) == MirrorIdx(i, Dims(ob, x.dom))
           IN  Mat(R, C, [k \in 1..(R * C) |->
                 LET i == (k - 1) \div C
                     j == (k - 1) % C
                 IN  IF cfg.left THEN v[mir(i) * C + j + 1] ELSE v[j * R + mir(i) + 1]])
Pt(x) == IF x THEN G1 ELSE G0
MatOf(ob, b, ms) ==
  LET d == Dims(ob, b.d)
      e == Dims(ob, b.c)
      R == Prod(d)
      C == Prod(e)
  IN CASE b.k \in {"cup", "cap"} ->
            LET t == DimOf(ob, IF b.k = "cup" THEN b.d[1] ELSE b.c[1])
                D == Prod(t)
                v == [k \in 1..(D * D) |-> Pt(MirrorIdx((k - 1) \div D, t) = (k - 1) % D)]
            IN  IF b.k = "cup" THEN Mat(D * D, 1, v) ELSE Mat(1, D * D, v)
       [] b.k = "swap" ->
            LET X == Size(ob, <<b.d[1]>>)
                Y == Size(ob, <<b.d[2]>>)
            IN  Mat(X * Y, X * Y, [k \in 1..(X * Y * X * Y) |->
                  LET i == (k - 1) \div (X * Y)
                      j == (k - 1) % (X * Y)
                  IN  Pt(i \div Y = j % X /\ i % Y = j \div X)])
       [] b.k = "spider" ->
            LET D == Size(ob, <<(b.d \o b.c)[1]>>)
                n == Len(b.d)
                m == Len(b.c)
                same(x, k) == \A q \in 0..(k - 1) : (x \div (D ^ q)) % D = x % D
            IN  Mat(R, C, [k \in 1..(R * C) |->
                  LET i == (k - 1) \div C
                      j == (k - 1) % C
                  IN  Pt(same(i, n) /\ same(j, m) /\ (n = 0 \/ m = 0 \/ i % D = j % D))])
       [] OTHER -> LET m0 == ms[b.cls]
                       m1 == IF b.dg = 1 THEN MDag(m0) ELSE m0
                   IN  IF b.z % 2 = 1 THEN MRot(m1, Rev(d), Rev(e)) ELSE m1
Put(T, bm, P, Q) ==
  LET C == P * bm.c * Q
  IN  Mat(T.r, C, [k \in 1..(T.r * C) |->
        LET row == (k - 1) \div C
            j == (k - 1) % C
            p == j \div (bm.c * Q)
            o == (j \div Q) % bm.c
            q == j % Q
        IN  SumIn(T, bm, row, p * bm.r * Q + q, o, Q, 0)])
TensorValue(ob, d, ms) ==
  FoldLeft(LAMBDA T, ly : Put(T, MatOf(ob, ly.b, ms), Size(ob, ly.L), Size(ob, ly.R)),
           Eye(Size(ob, d.dom)), d.layers)
=============================================================================
