------------------------------ MODULE Quantum ------------------------------
(***************************************************************************)
(* Quantum circuits, exactly.  Numbers are elements of Z[w]/sqrt2^k with w *)
(* = exp(i pi/4), written <<a0,a1,a2,a3>> = a0 + a1 w + a2 w^2 + a3 w^3;   *)
(* a matrix is [r, c, k, v]: v the flat row major numerators, k the common *)
(* power of 1/sqrt2.  Row index = input, column index = output.            *)
(*                                                                         *)
(* A circuit is [dom, cod, layers]; wires are "q" or "b"; a layer is       *)
(* [L, b, R]; a box [k, d, c, ...]:                                        *)
(*   gate g (a named gate, z = conjugated?)   rot g ph (quarter turns)     *)
(*   ctrl dist f=<<box>>   dag f=<<box>>   ket/bra/bit n   swap            *)
(*   measure encode discard mixed   scalar (v, k)   unit (v, k, z): a box  *)
(*   given by its entries.                                                 *)
(* Two readings: pure (every wire has dimension 2) and doubled (a qubit    *)
(* wire carries a pair of indices <<ket, bra>>, a bit wire one).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
A0 == <<0, 0, 0, 0>>
A1 == <<1, 0, 0, 0>>
AI == <<0, 0, 1, 0>>
AW == <<0, 1, 0, 0>>
AR == <<0, 1, 0, -1>>   \* sqrt 2
ANeg(x) == <<-x[1], -x[2], -x[3], -x[4]>>
AAdd(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4]>>
AMul(x, y) ==
  <<x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
    x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
    x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
    x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1]>>
AConj(x) == <<x[1], -x[4], -x[3], -x[2]>>
RECURSIVE AWPow(_)
AWPow(n) == IF n = 0 THEN A1 ELSE AMul(AW, AWPow(n - 1))
RECURSIVE P2(_)
P2(n) == IF n <= 0 THEN 1 ELSE 2 * P2(n - 1)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Rev(s) == Reverse(s)
RECURSIVE MirrorIdx(_, _)
MirrorIdx(i, dims) ==
  IF dims = <<>> THEN 0
  ELSE LET n == Len(dims)
           rest == SubSeq(dims, 1, n - 1)
       IN  (i % dims[n]) * Prod(rest) + MirrorIdx(i \div dims[n], rest)

Mat(r, c, k, v) == [r |-> r, c |-> c, k |-> k, v |-> v]
At(m, i, j) == m.v[i * m.c + j + 1]
(* remove a common factor of two = sqrt2^2 *)
AllEven(m) == \A i \in 1..Len(m.v) : \A j \in 1..4 : m.v[i][j] % 2 = 0
RECURSIVE Norm(_)
Norm(m) == IF m.k >= 2 /\ AllEven(m)
           THEN Norm([m EXCEPT !.k = @ - 2, !.v = [i \in 1..Len(m.v) |->
                      <<m.v[i][1] \div 2, m.v[i][2] \div 2, m.v[i][3] \div 2, m.v[i][4] \div 2>>]])
           ELSE m
Scale(m, n) == \* the same matrix over sqrt2^(k+n)
  IF n = 0 THEN m ELSE
  [m EXCEPT !.k = @ + n, !.v = [i \in 1..Len(m.v) |->
      LET x == IF n % 2 = 1 THEN AMul(m.v[i], AR) ELSE m.v[i]
          p == P2(n \div 2)
      IN  <<x[1] * p, x[2] * p, x[3] * p, x[4] * p>>]]
Same(a, b) == /\ a.r = b.r /\ a.c = b.c
              /\ IF a.k <= b.k THEN Scale(a, b.k - a.k).v = b.v ELSE Scale(b, a.k - b.k).v = a.v
MDag(m) == Mat(m.c, m.r, m.k, [k \in 1..(m.r * m.c) |->
                  AConj(m.v[((k - 1) % m.r) * m.c + ((k - 1) \div m.r) + 1])])
MConj(m) == [m EXCEPT !.v = [i \in 1..Len(m.v) |-> AConj(m.v[i])]]
MTrans(m) == MConj(MDag(m))
MRot(m, d, c) ==
  LET rd == Rev(d)
      rc == Rev(c)
  IN  Mat(m.r, m.c, m.k, [k \in 1..(m.r * m.c) |->
         AConj(At(m, MirrorIdx((k - 1) \div m.c, rd), MirrorIdx((k - 1) % m.c, rc)))])
Eye(n) == Mat(n, n, 0, [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN A1 ELSE A0])
RECURSIVE DotFrom(_, _, _, _, _)
DotFrom(a, b, i, j, k) == IF k >= a.c THEN A0
   ELSE LET x == At(a, i, k) IN
        IF x = A0 THEN DotFrom(a, b, i, j, k + 1)
        ELSE AAdd(AMul(x, At(b, k, j)), DotFrom(a, b, i, j, k + 1))
MMul(a, b) == Norm(Mat(a.r, b.c, a.k + b.k, [k \in 1..(a.r * b.c) |->
                 DotFrom(a, b, (k - 1) \div b.c, (k - 1) % b.c, 0)]))
MKron(a, b) == Norm(Mat(a.r * b.r, a.c * b.c, a.k + b.k,
   [k \in 1..(a.r * b.r * a.c * b.c) |->
      LET i == (k - 1) \div (a.c * b.c)
          j == (k - 1) % (a.c * b.c)
      IN  AMul(At(a, i \div b.r, j \div b.c), At(b, i % b.r, j % b.c))]))

(* ---- the pieces -------------------------------------------------------- *)
(* columns of the textbook matrix U are inputs, so our entry (in, out) is   *)
(* U[out][in].                                                              *)
M2(k, a, b, c, d) == Mat(2, 2, k, <<a, b, c, d>>)
NamedGate(g) ==
  CASE g = "H" -> M2(1, A1, A1, A1, ANeg(A1))
    [] g = "X" -> M2(0, A0, A1, A1, A0)
    [] g = "Y" -> M2(0, A0, AI, ANeg(AI), A0)   \* U[1][0] = i, U[0][1] = -i
    [] g = "Z" -> M2(0, A1, A0, A0, ANeg(A1))
    [] g = "S" -> M2(0, A1, A0, A0, AI)
    [] g = "T" -> M2(0, A1, A0, A0, AW)
(* rotation by angle 2 pi phase, phase = ph quarters:                       *)
(*   exp(-i pi phase P) = cos(pi ph/4) I - i sin(pi ph/4) P                 *)
(* 2cos(pi ph/4) = w^ph + w^-ph ;  2i sin = w^ph - w^-ph ; 2 = sqrt2^2      *)
RotGate(g, ph) ==
  LET p == ph % 8
      c2 == AAdd(AWPow(p), AWPow((8 - p) % 8))
      is2 == AAdd(AWPow(p), ANeg(AWPow((8 - p) % 8)))   \* 2 i sin
      s2 == AMul(is2, ANeg(AI))                         \* 2 sin
  IN  CASE g = "Rx" -> M2(2, c2, ANeg(is2), ANeg(is2), c2)
        [] g = "Ry" -> M2(2, c2, s2, ANeg(s2), c2)      \* U = [[c,-s],[s,c]]
        [] g = "Rz" -> M2(0, AWPow((8 - p) % 8), A0, A0, AWPow(p))
(* U on the block, controlled by one qubit dist before the block's start    *)
(* (dist > 0), or dist after the block's last qubit's ... start side.       *)
CtrlMat(m, n, dist) ==   \* m acts on n qubits; total n + |dist|
  LET ad == IF dist < 0 THEN -dist ELSE dist
      N == n + ad
      D == P2(N)
      bitAt(x, i) == (x \div P2(N - i)) % 2          \* i in 1..N
      cp == IF dist > 0 THEN 1 ELSE N                \* control
      lo == IF dist > 0 THEN ad + 1 ELSE 1           \* block lo..lo+n-1
      blk(x) == (x \div P2(N - (lo + n - 1))) % P2(n)
      rest(x) == x - blk(x) * P2(N - (lo + n - 1))
      e == Scale(Mat(1, 1, 0, <<A1>>), m.k).v[1]
  IN  Mat(D, D, m.k, [k \in 1..(D * D) |->
        LET i == (k - 1) \div D
            j == (k - 1) % D
        IN  IF bitAt(i, cp) = 0 THEN IF i = j THEN e ELSE A0
            ELSE IF rest(i) = rest(j) THEN At(m, blk(i), blk(j)) ELSE A0])
SwapMat(a, b) == Mat(a * b, a * b, 0, [k \in 1..(a * b * a * b) |->
     LET i == (k - 1) \div (a * b)
         j == (k - 1) % (a * b)
     IN  IF i \div b = j % a /\ i % b = j \div a THEN A1 ELSE A0])
Ones(d) == [i \in 1..Len(d) |-> 2]
BasisRow(n) == IF n = 0 THEN <<A1, A0>> ELSE <<A0, A1>>
RECURSIVE PureMat(_)
PureMat(b) ==
  CASE b.k = "gate" -> IF b.z % 2 = 1 THEN MConj(NamedGate(b.g)) ELSE NamedGate(b.g)
    [] b.k = "rot" -> RotGate(b.g, b.ph)
    [] b.k = "ctrl" -> CtrlMat(PureMat(b.f[1]), Len(b.f[1].d), b.dist)
    [] b.k = "dag" -> MDag(PureMat(b.f[1]))
    [] b.k \in {"ket", "bit"} -> Mat(1, 2, 0, BasisRow(b.n))
    [] b.k = "bra" -> Mat(2, 1, 0, BasisRow(b.n))
    [] b.k = "swap" -> SwapMat(2, 2)
    [] b.k = "scalar" -> Mat(1, 1, b.kk, <<b.v>>)
    [] b.k = "unit" ->
        LET m0 == Mat(P2(Len(b.d)), P2(Len(b.c)), b.kk, b.v)
        IN  IF b.z % 2 = 1 THEN MRot(m0, Ones(b.d), Ones(b.c)) ELSE m0
(* double a pure qubit matrix: wires carry <<ket, bra>> pairs, interleaved  *)
RECURSIVE KetIdx(_, _)
KetIdx(i, n) == IF n = 0 THEN 0 ELSE 2 * KetIdx(i \div 4, n - 1) + ((i % 4) \div 2)
RECURSIVE BraIdx(_, _)
BraIdx(i, n) == IF n = 0 THEN 0 ELSE 2 * BraIdx(i \div 4, n - 1) + (i % 2)
Double(m, n, o) ==
  LET R == P2(2 * n)
      C == P2(2 * o)
  IN  Mat(R, C, 2 * m.k, [k \in 1..(R * C) |->
        LET i == (k - 1) \div C
            j == (k - 1) % C
            x == At(m, KetIdx(i, n), KetIdx(j, o))
        IN  IF x = A0 THEN A0 ELSE AMul(x, AConj(At(m, BraIdx(i, n), BraIdx(j, o))))])
WireDim(w, mixed) == IF mixed /\ w = "q" THEN 4 ELSE 2
Dims(t, mixed) == [i \in 1..Len(t) |-> WireDim(t[i], mixed)]
MeasureM == Mat(4, 2, 0, <<A1, A0, A0, A0, A0, A0, A0, A1>>)   \* (i,j) -> b
BoxMat(b, mixed) ==
  IF ~mixed THEN PureMat(b)
  ELSE CASE b.k = "measure" -> MeasureM
         [] b.k = "encode" -> MTrans(MeasureM)
         [] b.k = "discard" -> Mat(4, 1, 0, <<A1, A0, A0, A1>>)
         [] b.k = "mixed" -> Mat(1, 4, 0, <<A1, A0, A0, A1>>)
         [] b.k = "swap" -> SwapMat(WireDim(b.d[1], TRUE), WireDim(b.d[2], TRUE))
         [] b.k = "bit" -> Mat(1, 2, 0, BasisRow(b.n))
         [] OTHER -> Double(PureMat(b), Len(b.d), Len(b.c))

RECURSIVE SumIn(_, _, _, _, _, _, _)
SumIn(T, bm, row, base, q, Q, i) ==
  IF i >= bm.r THEN A0 ELSE
  LET x == At(bm, i, q)
  IN  IF x = A0 THEN SumIn(T, bm, row, base, q, Q, i + 1)
      ELSE AAdd(AMul(T.v[row * T.c + base + i * Q + 1], x), SumIn(T, bm, row, base, q, Q, i + 1))
Apply(T, bm, P, Q) ==   \* bm between P values to the left, Q to the right
  LET C == P * bm.c * Q
  IN  Norm(Mat(T.r, C, T.k + bm.k, [k \in 1..(T.r * C) |->
        LET row == (k - 1) \div C
            j == (k - 1) % C
            p == j \div (bm.c * Q)
            o == (j \div Q) % bm.c
            q == j % Q
        IN  SumIn(T, bm, row, p * bm.r * Q + q, o, Q, 0)]))
ApplyLayer(T, ly, mixed) ==
  Apply(T, BoxMat(ly.b, mixed), Prod(Dims(ly.L, mixed)), Prod(Dims(ly.R, mixed)))
Value(d, mixed) == FoldLeft(LAMBDA T, ly : ApplyLayer(T, ly, mixed), Eye(Prod(Dims(d.dom, mixed))), d.layers)

(* ---- comparing with a floating point answer ------------------------------ *)
(* answers come as <<re, im>> scaled by 10^5                                 *)
U == 100000
R2 == 70711     \* 10^5/sqrt2
Fixed(x, k) ==  \* <<re, im>> of x/sqrt2^k, scaled by U
  LET y == IF k % 2 = 1 THEN AMul(x, AR) ELSE x
      p == P2((k + 1) \div 2)
      \* y/2^p, computed in pieces to stay within 32 bits
      sc(n) == (n \div p) * U + ((n % p) * U) \div p
      sr(n) == (n \div p) * R2 + ((n % p) * R2) \div p
  IN  <<sc(y[1]) + sr(y[2] - y[4]), sc(y[3]) + sr(y[2] + y[4])>>
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a[1] - b[1]) <= 8 /\ Abs(a[2] - b[2]) <= 8
MatClose(m, v) ==   \* v: flat sequence of scaled <<re, im>> in m's order
  /\ Len(v) = m.r * m.c
  /\ \A i \in 1..Len(v) : Close(Fixed(m.v[i], m.k), v[i])

(* The doubled array as lambeq lays it out: for a boundary with wires w,    *)
(* digits: bits in order, then kets of qubits in order, then bras.          *)
(* Position p (1-based) of digits -> our index.                             *)
Digit(x, n, i) == (x \div P2(n - i)) % 2
OurIdx(x, n, w, off) ==
  \* x has n digits overall; off = digits before this boundary
  LET nb == Cardinality({i \in 1..Len(w) : w[i] = "b"})
      nq == Len(w) - nb
      rank(i) == Cardinality({j \in 1..(i - 1) : w[j] = w[i]}) + 1
      val(i) == IF w[i] = "b" THEN Digit(x, n, off + rank(i))
                ELSE 2 * Digit(x, n, off + nb + rank(i)) + Digit(x, n, off + nb + nq + rank(i))
  IN  FoldLeft(LAMBDA acc, i : acc * WireDim(w[i], TRUE) + val(i), 0, [i \in 1..Len(w) |-> i])
NDig(w) == FoldLeft(LAMBDA a, x : a + (IF x = "b" THEN 1 ELSE 2), 0, w)
DoubledClose(m, dom, cod, v) ==
  LET n == NDig(dom) + NDig(cod)
  IN  /\ Len(v) = P2(n)
      /\ \A x \in 0..(P2(n) - 1) :
           LET i == OurIdx(x, n, dom, 0)
               j == OurIdx(x, n, cod, NDig(dom))
           IN  Close(Fixed(At(m, i, j), m.k), v[x + 1])

(* structure builders *)
TypedQ(d) ==
  LET n == Len(d.layers) IN
  /\ IF n = 0 THEN d.dom = d.cod ELSE
     /\ d.layers[1].L \o d.layers[1].b.d \o d.layers[1].R = d.dom
     /\ d.layers[n].L \o d.layers[n].b.c \o d.layers[n].R = d.cod
     /\ \A i \in 1..(n - 1) : d.layers[i].L \o d.layers[i].b.c \o d.layers[i].R
                           = d.layers[i + 1].L \o d.layers[i + 1].b.d \o d.layers[i + 1].R
MkQ(k, d, c) == [k |-> k, d |-> d, c |-> c]
(* init_and_discard: feed zeros, discard qubits *)
InitDiscard(m, dom, cod, mixed) ==   \* m: doubled value
  LET zero == FoldLeft(LAMBDA a, w : MKron(a, IF w = "q" THEN Mat(1, 4, 0, <<A1, A0, A0, A0>>)
                                                ELSE Mat(1, 2, 0, <<A1, A0>>)), Eye(1), dom)
      disc == FoldLeft(LAMBDA a, w : MKron(a, IF w = "q" THEN Mat(4, 1, 0, <<A1, A0, A0, A1>>)
                                                ELSE Eye(2)), Eye(1), cod)
  IN  MMul(zero, MMul(m, disc))
=============================================================================
