------------------------------- MODULE Ansatz -------------------------------
(***************************************************************************)
(* What an ansatz makes of a grammar diagram.                              *)
(*                                                                         *)
(* Circuits.  A box becomes: its input qubits, fresh zero qubits up to     *)
(* max(inputs, outputs) plus ancillas, the template of the ansatz on all   *)
(* of them, then the surplus qubits post-selected on zero (in a basis) or  *)
(* discarded.  A template is a sequence of [g, p, c, t]: gate g with       *)
(* parameter p (0: none) on qubit t, controlled by qubit c (0: none).      *)
(* Cups, caps, swaps, spiders become their counterparts on bundles of      *)
(* qubits; the adjoint of a type has its qubits in reverse.                *)
(***************************************************************************)
EXTENDS Quantum
G(g, p, c, t) == [g |-> g, p |-> p, c |-> c, t |-> t]
Upto(n, f(_)) == [i \in 1..n |-> f(i)]
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
(* parameters used on n > 1 qubits by one layer *)
PerLayer(a, n) ==
  CASE a = "IQP" -> n - 1
    [] a = "Sim14" -> 4 * n
    [] a = "Sim15" -> 2 * n
    [] a = "Sim4" -> 3 * n - 1
    [] a = "StronglyEntangling" -> 3 * n
    [] a = "Sim9" -> n
    [] a = "Sim9Cx" -> n
NParams(cfg, n) ==
  IF n = 0 THEN 0 ELSE IF n = 1 THEN cfg.nsq ELSE cfg.layers * PerLayer(cfg.a, n)
LayerOf(cfg, n, l) ==    \* l = 0..layers-1
  LET b == l * PerLayer(cfg.a, n)
      Hs == Upto(n, LAMBDA i : G("H", 0, 0, i))
      Rs(g, o) == Upto(n, LAMBDA i : G(g, b + o + i, 0, i))
      \* qubits numbered 1..n; the rings of Sim14 and Sim15
      ringA(i) == IF i = 1 THEN n ELSE i - 1          \* neighbour before
      ringB(i) == IF i = n THEN 1 ELSE i + 1          \* neighbour after
      srcB(k) == IF k = 1 THEN 1 ELSE n + 2 - k       \* second ring starts at 1, goes down
      se == IF cfg.ranges = <<>> THEN (l % (n - 1)) + 1 ELSE cfg.ranges[l + 1]
  IN CASE cfg.a = "IQP" -> Hs \o Upto(n - 1, LAMBDA i : G("Rz", b + i, i, i + 1))
       [] cfg.a = "Sim14" ->
            Rs("Ry", 0) \o Upto(n, LAMBDA i : G("Rx", b + n + i, i, ringA(i)))
            \o Rs("Ry", 2 * n)
            \o Upto(n, LAMBDA k : G("Rx", b + 3 * n + k, srcB(k), ringB(srcB(k))))
       [] cfg.a = "Sim15" ->
            Rs("Ry", 0) \o Upto(n, LAMBDA i : G("X", 0, i, ringA(i)))
            \o Rs("Ry", n) \o Upto(n, LAMBDA k : G("X", 0, srcB(k), ringB(srcB(k))))
       [] cfg.a = "Sim4" ->
            Rs("Rx", 0) \o Rs("Rz", n) \o Upto(n - 1, LAMBDA i : G("Rx", b + 2 * n + i, i, i + 1))
       [] cfg.a = "StronglyEntangling" ->
            Cat(Upto(n, LAMBDA j : <<G("Rz", b + 3 * j - 2, 0, j), G("Ry", b + 3 * j - 1, 0, j),
                                     G("Rz", b + 3 * j, 0, j)>>))
            \o Upto(n, LAMBDA j : G("X", 0, j, ((j - 1 + se) % n) + 1))
       [] cfg.a = "Sim9" ->
            Hs \o Upto(n - 1, LAMBDA i : G("Z", 0, i, i + 1)) \o Rs("Rx", 0)
       [] cfg.a = "Sim9Cx" ->
            Hs \o Upto(n - 1, LAMBDA i : G("X", 0, i, i + 1)) \o Rs("Rx", 0)
Template(cfg, n) ==
  IF n = 0 THEN <<>>
  ELSE IF n = 1 THEN Upto(cfg.nsq, LAMBDA i : G(cfg.rots[((i - 1) % Len(cfg.rots)) + 1], i, 0, 1))
  ELSE Cat(Upto(cfg.layers, LAMBDA l : LayerOf(cfg, n, l - 1)))
       \o (IF cfg.a = "IQP" /\ cfg.layers > 0 THEN Upto(n, LAMBDA i : G("H", 0, 0, i)) ELSE <<>>)
GateMat(g, ph) == IF g \in {"Rx", "Ry", "Rz"} THEN RotGate(g, ph) ELSE NamedGate(g)
(* T: rows x 2^N; apply a one qubit matrix at t, controlled by c            *)
On(T, m, c, t, N) ==
  LET bt(x, i) == (x \div P2(N - i)) % 2
      w == P2(N - t)
      e == Scale(Mat(1, 1, 0, <<A1>>), m.k).v[1]
  IN  Norm([T EXCEPT !.k = @ + m.k, !.v = [q \in 1..Len(T.v) |->
        LET j == (q - 1) % T.c
            row == q - 1 - j
            j0 == j - bt(j, t) * w
            o == bt(j, t)
        IN  IF c > 0 /\ bt(j, c) = 0 THEN AMul(T.v[q], e)
            ELSE AAdd(AMul(T.v[row + j0 + 1], At(m, 0, o)), AMul(T.v[row + j0 + w + 1], At(m, 1, o)))]])
Run(T, gates, ph, N) ==
  FoldLeft(LAMBDA X, g : On(X, GateMat(g.g, IF g.p = 0 THEN 0 ELSE ph[g.p]), g.c, g.t, N), T, gates)

(* ---- a box class [dom, cod, anc, ph]: dom and cod qubit counts ----------- *)
Larger(a, b) == IF a > b THEN a ELSE b
Width(x) == Larger(x.dom, x.cod) + x.anc
Extras(x) == Width(x) - x.cod
Unitary(cfg, x) ==   \* rows: inputs, columns: all qubits, surplus last
  LET n == Width(x)
      s == n - x.dom
      start == Mat(P2(x.dom), P2(n), 0, [k \in 1..(P2(x.dom) * P2(n)) |->
                  IF (k - 1) % P2(n) = ((k - 1) \div P2(n)) * P2(s) THEN A1 ELSE A0])
  IN  Run(start, Template(cfg, n), x.ph, n)
Pure(cfg, x) ==
  LET n == Width(x)
      ex == Extras(x)
      u == Unitary(cfg, x)
      b == FoldLeft(LAMBDA X, q : FoldLeft(LAMBDA Y, g : On(Y, GateMat(g, 0), 0, q, n), X, cfg.basis),
                    u, [i \in 1..ex |-> x.cod + i])
  IN  Norm(Mat(P2(x.dom), P2(x.cod), b.k, [k \in 1..(P2(x.dom) * P2(x.cod)) |->
        At(b, (k - 1) \div P2(x.cod), ((k - 1) % P2(x.cod)) * P2(ex))]))
Traced(cfg, x) ==    \* doubled, surplus qubits discarded
  LET ex == Extras(x)
      u == Unitary(cfg, x)
      R == P2(2 * x.dom)
      C == P2(2 * x.cod)
      E == P2(ex)
      sum(i, j) == FoldLeft(LAMBDA a, e : AAdd(a, AMul(At(u, KetIdx(i, x.dom), KetIdx(j, x.cod) * E + e - 1),
                              AConj(At(u, BraIdx(i, x.dom), BraIdx(j, x.cod) * E + e - 1)))),
                            A0, [e \in 1..E |-> e])
  IN  Norm(Mat(R, C, 2 * u.k, [k \in 1..(R * C) |-> sum((k - 1) \div C, (k - 1) % C)]))
ClassMixed(cfg, x) == cfg.discard /\ Extras(x) > 0
ClassMat(cfg, x, mixed) ==
  IF ClassMixed(cfg, x) THEN Traced(cfg, x)
  ELSE IF mixed THEN Double(Pure(cfg, x), x.dom, x.cod) ELSE Pure(cfg, x)

(* ---- the structural boxes over bundles of a, b, ... qubits --------------- *)
Bits(n) == [i \in 1..n |-> 2]
Bool(x) == IF x THEN A1 ELSE A0
PCup(a) == Mat(P2(2 * a), 1, 0, [k \in 1..P2(2 * a) |->
              Bool(MirrorIdx((k - 1) \div P2(a), Bits(a)) = (k - 1) % P2(a))])
PSpider(a, i, o) ==
  LET D == P2(a)
      all(x, n) == \A q \in 0..(n - 1) : (x \div P2(a * q)) % D = x % D
  IN  Mat(P2(a * i), P2(a * o), 0, [k \in 1..(P2(a * i) * P2(a * o)) |->
        LET r == (k - 1) \div P2(a * o)
            q == (k - 1) % P2(a * o)
        IN  Bool(all(r, i) /\ all(q, o) /\ (i = 0 \/ o = 0 \/ r % D = q % D))])
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
(* one box of the diagram; d, c: qubits of each wire                         *)
BoxAt(b, ms, mixed) ==
  LET D == Sum(b.d)
      C == Sum(b.c)
      lift(m) == IF mixed THEN Double(m, D, C) ELSE m
      ones(n) == [i \in 1..n |-> IF mixed THEN 4 ELSE 2]
  IN CASE b.k = "cup" -> lift(PCup(b.d[1]))
       [] b.k = "cap" -> lift(MTrans(PCup(b.c[1])))
       [] b.k = "swap" -> lift(SwapMat(P2(b.d[1]), P2(b.d[2])))
       [] b.k = "spider" -> lift(PSpider((b.d \o b.c)[1], Len(b.d), Len(b.c)))
       [] OTHER -> LET m0 == ms[b.cls]
                       m1 == IF b.dg = 1 THEN MDag(m0) ELSE m0
                   IN  IF b.z % 2 = 1 THEN MRot(m1, ones(Sum(b.c) + Sum(b.d) - C), ones(C)) ELSE m1
CircuitValue(d, ms, mixed) ==
  LET P(t) == P2((IF mixed THEN 2 ELSE 1) * Sum(t))
  IN  FoldLeft(LAMBDA T, ly : Apply(T, BoxAt(ly.b, ms, mixed), P(ly.L), P(ly.R)), Eye(P(d.dom)), d.layers)
=============================================================================
