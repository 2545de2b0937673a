------------------------------ MODULE P11Model ------------------------------
(***************************************************************************)
(* Every small configuration of the circuit ansätze: laws of the templates *)
(* (each parameter used exactly once, gates on distinct existing qubits,   *)
(* every circuit unitary, entangling once there is a layer), of the        *)
(* post-selected and discarded boxes (isometries stay so, discarding       *)
(* preserves the trace).  Each configuration is printed and replayed.      *)
(***************************************************************************)
EXTENDS Ansatz, Json
CONSTANTS MaxLayers, MaxDom, MaxCod, MaxWidth
VARIABLE v
Names == {"IQP", "Sim14", "Sim15", "Sim4", "StronglyEntangling", "Sim9", "Sim9Cx"}
Cfg(a, L, disc) == [a |-> a, layers |-> L, nsq |-> 3, rots |-> IF a = "StronglyEntangling" THEN <<"Rz", "Ry">> ELSE <<"Rx", "Rz">>,
                    discard |-> disc, basis |-> <<>>, ranges |-> <<>>]
\* values of the parameters: all different enough to tell the places apart
Ph(L) == [i \in 1..60 |-> <<1, 2, 6, 4, 3, 2, 0, 6>>[((i * 5 + L) % 8) + 1]]
Init == v \in {[cfg |-> Cfg(a, L, disc), dom |-> d, cod |-> e, anc |-> n] :
                 a \in Names, L \in 0..MaxLayers, disc \in BOOLEAN, d \in 0..MaxDom, e \in 0..MaxCod, n \in 0..1}
        /\ Larger(v.dom, v.cod) + v.anc <= MaxWidth
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
X == [dom |-> v.dom, cod |-> v.cod, anc |-> v.anc, ph |-> Ph(v.cfg.layers)]
N == Width(X)
T == Template(v.cfg, N)
ParamsOnce == \A p \in 1..NParams(v.cfg, N) : Cardinality({i \in 1..Len(T) : T[i].p = p}) = 1
ParamsOnly == \A i \in 1..Len(T) : T[i].p \in 0..NParams(v.cfg, N)
GatesFit == \A i \in 1..Len(T) : T[i].t \in 1..N /\ T[i].c \in 0..N /\ T[i].t # T[i].c
\* the two-qubit gates of a layer connect all qubits
RECURSIVE Reach(_, _)
Reach(s, n) == IF n = 0 THEN s ELSE
  Reach(s \cup {q \in 1..N : \E i \in 1..Len(T) : T[i].c > 0 /\ ((T[i].t = q /\ T[i].c \in s) \/ (T[i].c = q /\ T[i].t \in s))}, n - 1)
Connected == (N > 1 /\ v.cfg.layers > 0) => Reach({1}, N) = 1..N
Isometry == LET u == Unitary(v.cfg, X) IN Same(MMul(u, MDag(u)), Eye(P2(v.dom)))
NoExtras == (Extras(X) = 0) => Same(ClassMat(v.cfg, X, FALSE), Unitary(v.cfg, X))
\* discarding the surplus keeps the trace: discarding the rest as well gives one
DiscardAll(n) == Mat(P2(2 * n), 1, 0, [k \in 1..P2(2 * n) |-> Bool(KetIdx(k - 1, n) = BraIdx(k - 1, n))])
Traces == (v.cfg.discard /\ v.dom + v.cod <= 3) =>
            Same(MMul(ClassMat(v.cfg, X, TRUE), DiscardAll(v.cod)), DiscardAll(v.dom))
Emit == PrintT("@@RUN|" \o ToJson([cfg |-> v.cfg, dom |-> v.dom, cod |-> v.cod, anc |-> v.anc, np |-> NParams(v.cfg, N)]))
=============================================================================
