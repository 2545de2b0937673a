------------------------------ MODULE Tensors ------------------------------
(***************************************************************************)
(* Exact multilinear algebra over the Gaussian integers <<re, im>>.        *)
(* A tensor diagram is [dom, cod, layers]; types are sequences of          *)
(* dimensions; a layer is [L, b, R]; a box is                              *)
(*  [k, d, c, z, dg, data]: data is the row major array of the *base* box  *)
(* (unrotated, undaggered), and d, c the domain and codomain of the box as *)
(* it stands.  The value of a diagram is a flat sequence indexed by        *)
(* (domain index, codomain index) in row major order.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
GAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
GMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
GConj(x) == <<x[1], -x[2]>>
G0 == <<0, 0>>
G1 == <<1, 0>>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Rev(s) == Reverse(s)
(* index (0-based) of the mirrored multi-index: digits of i in base dims,   *)
(* read in base Rev(dims)                                                   *)
RECURSIVE MirrorIdx(_, _)
MirrorIdx(i, dims) ==   \* i indexes dims; result indexes Rev(dims)
  IF dims = <<>> THEN 0
  ELSE LET n == Len(dims)
           last == dims[n]
       IN  (i % last) * Prod(SubSeq(dims, 1, n - 1))
             + MirrorIdx(i \div last, SubSeq(dims, 1, n - 1))

(* A matrix: [r |-> rows, c |-> cols, v |-> flat row major]                 *)
Mat(r, c, v) == [r |-> r, c |-> c, v |-> v]
At(m, i, j) == m.v[i * m.c + j + 1]
MDag(m) == Mat(m.c, m.r, [k \in 1..(m.r * m.c) |->
                  GConj(m.v[((k - 1) % m.r) * m.c + ((k - 1) \div m.r) + 1])])
(* mirror image with conjugated entries: the diagrammatic conjugate         *)
MRot(m, d, c) ==  \* d, c: dims of m; result has dims Rev(d), Rev(c)
  LET rd == Rev(d)
      rc == Rev(c)
  IN  Mat(m.r, m.c, [k \in 1..(m.r * m.c) |->
         GConj(At(m, MirrorIdx((k - 1) \div m.c, rd), MirrorIdx((k - 1) % m.c, rc)))])
MTrans(m) == Mat(m.c, m.r, [k \in 1..(m.r * m.c) |->
                  m.v[((k - 1) % m.r) * m.c + ((k - 1) \div m.r) + 1]])
Eye(n) == Mat(n, n, [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN G1 ELSE G0])
RECURSIVE DotFrom(_, _, _, _, _)
DotFrom(a, b, i, j, k) == IF k >= a.c THEN G0
   ELSE LET x == At(a, i, k) IN
        IF x = G0 THEN DotFrom(a, b, i, j, k + 1)
        ELSE GAdd(GMul(x, At(b, k, j)), DotFrom(a, b, i, j, k + 1))
MMul(a, b) == Mat(a.r, b.c, [k \in 1..(a.r * b.c) |->
                 DotFrom(a, b, (k - 1) \div b.c, (k - 1) % b.c, 0)])
MKron(a, b) == Mat(a.r * b.r, a.c * b.c,
   [k \in 1..(a.r * b.r * a.c * b.c) |->
      LET i == (k - 1) \div (a.c * b.c)
          j == (k - 1) % (a.c * b.c)
      IN  GMul(At(a, i \div b.r, j \div b.c), At(b, i % b.r, j % b.c))])

(* The map of one box.                                                      *)
SpiderMat(dim, ins, outs) ==
  LET R == dim ^ ins
      C == dim ^ outs
      step(n) == IF n = 0 THEN 0 ELSE (dim ^ n - 1) \div (dim - 1)
  IN  Mat(R, C, [k \in 1..(R * C) |->
        LET i == (k - 1) \div C
            j == (k - 1) % C
        IN  IF \E a \in 0..(dim - 1) : i = a * step(ins) /\ j = a * step(outs) THEN G1 ELSE G0])
BoxMat(b) ==
  CASE b.k = "cup" -> Mat(Prod(b.d), 1, [k \in 1..Prod(b.d) |->
                        IF (k - 1) \div b.d[2] = (k - 1) % b.d[2] THEN G1 ELSE G0])
    [] b.k = "cap" -> Mat(1, Prod(b.c), [k \in 1..Prod(b.c) |->
                        IF (k - 1) \div b.c[2] = (k - 1) % b.c[2] THEN G1 ELSE G0])
    [] b.k = "swap" -> Mat(Prod(b.d), Prod(b.c), [k \in 1..(Prod(b.d) * Prod(b.c)) |->
                        LET i == (k - 1) \div Prod(b.c)
                            j == (k - 1) % Prod(b.c)
                        IN  IF i \div b.d[2] = j % b.d[1] /\ i % b.d[2] = j \div b.d[1] THEN G1 ELSE G0])
    [] b.k = "spider" -> SpiderMat((b.d \o b.c)[1], Len(b.d), Len(b.c))
    [] OTHER ->
       LET d0 == IF b.dg = 1 THEN b.c ELSE b.d
           c0 == IF b.dg = 1 THEN b.d ELSE b.c
           \* d0, c0: dims of the undaggered box; base dims are mirrored if z odd
           bd == IF b.z % 2 = 1 THEN Rev(d0) ELSE d0
           bc == IF b.z % 2 = 1 THEN Rev(c0) ELSE c0
           m0 == Mat(Prod(bd), Prod(bc), b.data)
           m1 == IF b.z % 2 = 1 THEN MRot(m0, bd, bc) ELSE m0
       IN  IF b.dg = 1 THEN MDag(m1) ELSE m1

(* Apply a layer to T : rows = domain index, cols = current wires.          *)
RECURSIVE SumIn(_, _, _, _, _, _, _)
SumIn(T, bm, row, base, q, Q, i) ==  \* sum over the box's inputs
  IF i >= bm.r THEN G0 ELSE
  LET x == At(bm, i, q)
  IN  IF x = G0 THEN SumIn(T, bm, row, base, q, Q, i + 1)
      ELSE GAdd(GMul(T.v[row * T.c + base + i * Q + 1], x), SumIn(T, bm, row, base, q, Q, i + 1))
ApplyLayer(T, ly) ==
  LET bm == BoxMat(ly.b)
      P == Prod(ly.L)
      Q == Prod(ly.R)
      C == P * bm.c * Q
  IN  Mat(T.r, C, [k \in 1..(T.r * C) |->
        LET row == (k - 1) \div C
            j == (k - 1) % C
            p == j \div (bm.c * Q)
            o == (j \div Q) % bm.c
            q == j % Q
        IN  SumIn(T, bm, row, p * bm.r * Q + q, o, Q, 0)])
Value(d) == FoldLeft(ApplyLayer, Eye(Prod(d.dom)), d.layers)
TypedT(d) ==
  LET n == Len(d.layers) IN
  /\ IF n = 0 THEN d.dom = d.cod ELSE
     /\ d.layers[1].L \o d.layers[1].b.d \o d.layers[1].R = d.dom
     /\ d.layers[n].L \o d.layers[n].b.c \o d.layers[n].R = d.cod
     /\ \A i \in 1..(n - 1) : d.layers[i].L \o d.layers[i].b.c \o d.layers[i].R
                           = d.layers[i + 1].L \o d.layers[i + 1].b.d \o d.layers[i + 1].R
=============================================================================
