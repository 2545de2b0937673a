------------------------------ MODULE P07Trace ------------------------------
(***************************************************************************)
(* Exporting circuits.  The exported command list is executed here, by the *)
(* specification, and its outcome weights are compared with those of the   *)
(* circuit it came from; imports are compared the other way round.         *)
(***************************************************************************)
EXTENDS Quantum, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
(* ---- a machine that runs a command list ---------------------------------*)
(* state: amplitudes over n qubits, one row matrix.  bits: function from bit *)
(* index to the qubit measured into it.                                      *)
OneQ(g, ph) == CASE g \in {"Rx", "CRx"} -> RotGate("Rx", ph)
                 [] g \in {"Ry", "CRy"} -> RotGate("Ry", ph)
                 [] g \in {"Rz", "CRz"} -> RotGate("Rz", ph)
                 [] g \in {"X", "CX", "CCX"} -> NamedGate("X")
                 [] g \in {"Y", "CY"} -> NamedGate("Y")
                 [] g \in {"Z", "CZ", "CCZ"} -> NamedGate("Z")
                 [] g = "H" \/ g = "CH" -> NamedGate("H")
                 [] g = "S" -> NamedGate("S")
                 [] g = "Sdg" -> MDag(NamedGate("S"))
                 [] g = "T" -> NamedGate("T")
                 [] g = "Tdg" -> MDag(NamedGate("T"))
GateNames == {"H", "CH", "X", "Y", "Z", "S", "Sdg", "T", "Tdg", "Rx", "Ry", "Rz", "CX", "CY", "CZ", "CRx", "CRy", "CRz",
              "CCX", "CCZ", "SWAP"}
Bt(x, n, q) == (x \div P2(n - 1 - q)) % 2       \* q from 0
SetBt(x, n, q, b) == x + (b - Bt(x, n, q)) * P2(n - 1 - q)
RunCmd(s, n, cmd) ==
  IF cmd.g = "SWAP" THEN
     LET a == cmd.q[1]
         b == cmd.q[2]
     IN  [s EXCEPT !.v = [k \in 1..P2(n) |->
            s.v[SetBt(SetBt(k - 1, n, a, Bt(k - 1, n, b)), n, b, Bt(k - 1, n, a)) + 1]]]
  ELSE
     LET m == OneQ(cmd.g, cmd.ph)
         t == cmd.q[Len(cmd.q)]
         ctl == {cmd.q[i] : i \in 1..(Len(cmd.q) - 1)}
         e == Scale(Mat(1, 1, 0, <<A1>>), m.k).v[1]
     IN  Norm(Mat(1, P2(n), s.k + m.k, [k \in 1..P2(n) |->
           LET x == k - 1
           IN  IF \E z \in ctl : Bt(x, n, z) = 0 THEN AMul(e, s.v[k])
               ELSE AAdd(AMul(s.v[SetBt(x, n, t, 0) + 1], At(m, 0, Bt(x, n, t))),
                         AMul(s.v[SetBt(x, n, t, 1) + 1], At(m, 1, Bt(x, n, t))))]))
Start(n) == Mat(1, P2(n), 0, [k \in 1..P2(n) |-> IF k = 1 THEN A1 ELSE A0])
Gates(t) == SelectSeq(t.cmds, LAMBDA x : x.g # "Measure")
Meas(t) == SelectSeq(t.cmds, LAMBDA x : x.g = "Measure")
(* measurements are final in every circuit considered here *)
FinalMeasures(t) == \A i, j \in 1..Len(t.cmds) :
   (i < j /\ t.cmds[i].g = "Measure") =>
      t.cmds[i].q[1] \notin {t.cmds[j].q[x] : x \in 1..Len(t.cmds[j].q)}
Runnable(t) == /\ \A i \in 1..Len(t.cmds) : t.cmds[i].g \in GateNames \cup {"Measure"}
               /\ FinalMeasures(t)
               /\ \A i, j \in 1..Len(Meas(t)) : i # j => Meas(t)[i].b # Meas(t)[j].b
               /\ \A p \in 1..Len(t.post) : \E i \in 1..Len(Meas(t)) : Meas(t)[i].b = t.post[p][1]
               /\ {Meas(t)[i].b : i \in 1..Len(Meas(t))} = 0..(t.nb - 1)
(* outcome weights over the bits that are not post-selected, in bit order.  *)
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortSet(S \ {m})
RECURSIVE SumW(_, _, _, _)
SumW(s, n, cond, k) ==    \* sum of |amp|^2 over basis states satisfying cond: qubit -> bit
  IF k > P2(n) THEN A0
  ELSE IF \A i \in 1..Len(cond) : Bt(k - 1, n, cond[i][1]) = cond[i][2]
       THEN AAdd(AMul(s.v[k], AConj(s.v[k])), SumW(s, n, cond, k + 1))
       ELSE SumW(s, n, cond, k + 1)
Weights(t) ==
  LET s == FoldLeft(LAMBDA a, x : RunCmd(a, t.n, x), Start(t.n), Gates(t))
      qOf(b) == (CHOOSE x \in {Meas(t)[i] : i \in 1..Len(Meas(t))} : x.b = b).q[1]
      posts == {t.post[p][1] : p \in 1..Len(t.post)}
      free == SortSet((0..(t.nb - 1)) \ posts)
      pc == [p \in 1..Len(t.post) |-> <<qOf(t.post[p][1]), t.post[p][2]>>]
      nf == Len(free)
      w == Mat(1, P2(nf), 2 * s.k, [x \in 1..P2(nf) |->
             SumW(s, t.n, pc \o [i \in 1..nf |-> <<qOf(free[i]), (((x - 1) \div P2(nf - i)) % 2)>>], 1)])
  IN  Norm(MMul(Mat(1, 1, t.kk, <<t.scalar>>), w))
(* the outcome weights of a circuit: zeros fed in, qubits left over ignored *)
CircWeights(d) == InitDiscard(Value(d, TRUE), d.dom, d.cod, TRUE)
(* pieces with a counterpart among tket's commands                          *)
RECURSIVE Inner(_)
Inner(b) == IF b.k = "ctrl" THEN Inner(b.f[1]) ELSE b
RECURSIVE Depth(_)
Depth(b) == IF b.k = "ctrl" THEN 1 + Depth(b.f[1]) ELSE 0
Expressible(b) ==
  CASE b.k = "gate" -> b.z % 2 = 0 \/ b.g \in {"S", "T", "Y"}
    [] b.k = "dag" -> b.f[1].k = "gate" /\ (b.f[1].z % 2 = 0 \/ b.f[1].g \in {"S", "T", "Y"})
    [] b.k = "ctrl" -> LET i == Inner(b) IN
         \/ i.k = "rot" /\ Depth(b) = 1
         \/ i.k = "gate" /\ i.z % 2 = 0 /\ ((i.g = "X" /\ Depth(b) \in {1, 2}) \/ (i.g = "Z" /\ Depth(b) = 1))
    [] b.k \in {"rot", "ket", "bra", "measure", "discard", "scalar"} -> TRUE
    [] b.k = "swap" -> b.d = <<"q", "q">> \/ b.d = <<"b", "b">>
    [] OTHER -> FALSE
Bad(e) ==
  CASE e.op = "export" ->
        IF ~e.ok THEN IF (\A i \in 1..Len(e.d.layers) : Expressible(e.d.layers[i].b)) THEN {"export:refused"} ELSE {}
        ELSE IF ~Runnable(e.t) THEN {"export:not-runnable"}
        ELSE (IF Same(Weights(e.t), CircWeights(e.d)) THEN {} ELSE {"export:weights"})
    [] e.op = "reimport" -> \* from_tk of the exported circuit, simulated
        IF ~e.ok THEN {"reimport:refused"}
        ELSE LET w == CircWeights(e.d) IN
             (IF e.cod = SelectSeq(e.d.cod, LAMBDA x : x = "b") THEN {} ELSE {"reimport:cod"})
             \cup (IF e.cod = [i \in 1..Len(e.cod) |-> "b"] /\ MatClose(w, e.v) THEN {} ELSE {"reimport:value"})
    [] e.op = "import" -> \* from_tk of a foreign command list
        IF ~e.ok THEN {"import:refused"}
        ELSE (IF Len(e.v) = P2(e.t.nb - Len(e.t.post)) /\ MatClose(Weights(e.t), e.v) THEN {} ELSE {"import:value"})
    [] e.op = "counts" -> \* results of a run: counts of bit strings -> array
        \* e.counts: <<bits, n>> with total e.total; e.v scaled result
        IF ~e.ok THEN {"counts:refused"}
        ELSE LET posts == {e.post[p][1] : p \in 1..Len(e.post)}
                 free == SortSet((0..(e.nb - 1)) \ posts)
                 nf == Len(free)
                 sel(x) == {i \in 1..Len(e.counts) :
                              /\ \A p \in 1..Len(e.post) : e.counts[i][1][e.post[p][1] + 1] = e.post[p][2]
                              /\ \A f \in 1..nf : e.counts[i][1][free[f] + 1] = ((x \div P2(nf - f)) % 2)}
                 tot(x) == FoldLeft(LAMBDA a, i : IF i \in sel(x) THEN a + e.counts[i][2] ELSE a, 0,
                                    [i \in 1..Len(e.counts) |-> i])
             IN  IF Len(e.v) # P2(nf) THEN {"counts:shape"}
                 ELSE IF \A x \in 0..(P2(nf) - 1) : Abs(e.v[x + 1] - (tot(x) * (e.sc * (U \div e.total)))) <= e.sc * 8 THEN {} ELSE {"counts:value"}
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ \A b \in Bad(Cases[c].events[l]) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
