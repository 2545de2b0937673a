------------------------------ MODULE P06Model ------------------------------
(* Laws the reading of circuits must satisfy, over all small circuits.     *)
EXTENDS Quantum
CONSTANTS MaxLayers, MaxQ
VARIABLES d
q(n) == [i \in 1..n |-> "q"]
G(g) == [k |-> "gate", g |-> g, z |-> 0, d |-> q(1), c |-> q(1)]
Rt(g, p) == [k |-> "rot", g |-> g, ph |-> p, d |-> q(1), c |-> q(1)]
C(b, dist) == LET n == Len(b.d) + (IF dist < 0 THEN -dist ELSE dist)
              IN [k |-> "ctrl", dist |-> dist, f |-> <<b>>, d |-> q(n), c |-> q(n)]
D(b) == [k |-> "dag", f |-> <<b>>, d |-> b.c, c |-> b.d]
Bx == {G(g) : g \in {"H", "Y", "S", "T"}} \cup {D(G("S"))} \cup {Rt("Rx", 1), Rt("Ry", 3), Rt("Rz", 2)}
   \cup {C(G("X"), 1), C(G("Y"), -2), C(Rt("Ry", 1), 2), C(C(G("X"), -1), 1)}
   \cup {[k |-> "ket", n |-> 0, d |-> <<>>, c |-> q(1)], [k |-> "bra", n |-> 1, d |-> q(1), c |-> <<>>],
         [k |-> "swap", d |-> q(2), c |-> q(2)]}
Init == d \in {[dom |-> q(n), cod |-> q(n), layers |-> <<>>] : n \in 0..2}
Next == /\ Len(d.layers) < MaxLayers
        /\ \E b \in Bx : \E i \in 0..(Len(d.cod) - Len(b.d)) :
             /\ Len(d.cod) - Len(b.d) + Len(b.c) <= MaxQ
             /\ LET L == SubSeq(d.cod, 1, i)
                    R == SubSeq(d.cod, i + Len(b.d) + 1, Len(d.cod))
                IN  d' = [dom |-> d.dom, cod |-> L \o b.c \o R,
                          layers |-> Append(d.layers, [L |-> L, b |-> b, R |-> R])]
Spec == Init /\ [][Next]_d
Unitary(b) == b.k \in {"gate", "rot", "ctrl", "dag", "swap"}
UnitaryOK == (\A i \in 1..Len(d.layers) : Unitary(d.layers[i].b)) =>
                LET v == Value(d, FALSE) IN Same(MMul(v, MDag(v)), Eye(P2(Len(d.dom))))
Typed == TypedQ(d)
(* the doubled reading of a pure circuit is its pure reading, doubled *)
DoubleOK == Len(d.dom) + Len(d.cod) <= 4 =>
              Same(Value(d, TRUE), Double(Value(d, FALSE), Len(d.dom), Len(d.cod)))
(* discarding every output of an isometry is the trace: probability one *)
DiscardOK == ((\A i \in 1..Len(d.layers) : d.layers[i].b.k # "bra") /\ d.dom = <<>> /\ Len(d.cod) <= 2) =>
              Same(InitDiscard(Value(d, TRUE), d.dom, d.cod, TRUE), Eye(1))
(* Controlled(b, dist) is the adjacent gate conjugated by swaps *)
Sw(L, R) == [L |-> q(L), b |-> [k |-> "swap", d |-> q(2), c |-> q(2)], R |-> q(R)]
CtrlOK == \A b \in {G("X"), G("S"), Rt("Ry", 1), C(G("Y"), 1)} :
   /\ Len(b.d) = 1 => Same(PureMat(C(b, 2)),
        Value([dom |-> q(3), cod |-> q(3), layers |-> <<Sw(1, 0), [L |-> <<>>, b |-> C(b, 1), R |-> q(1)], Sw(1, 0)>>], FALSE))
   /\ Len(b.d) = 1 => Same(PureMat(C(b, -1)),
        Value([dom |-> q(2), cod |-> q(2), layers |-> <<Sw(0, 0), [L |-> <<>>, b |-> C(b, 1), R |-> <<>>], Sw(0, 0)>>], FALSE))
   /\ Same(MDag(PureMat(C(b, -2))), PureMat(C(D(b), -2)))
   /\ Same(MRot(PureMat(C(b, 2)), Ones(C(b, 2).d), Ones(C(b, 2).d)),
           CtrlMat(MRot(PureMat(b), Ones(b.d), Ones(b.d)), Len(b.d), -2))
=============================================================================
