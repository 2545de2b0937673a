------------------------------ MODULE P06Trace ------------------------------
(* A pool of circuits with their exact values; each event applies an       *)
(* operation to pool members and reports what simulating the result gave.  *)
EXTENDS Quantum, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, pool
Entry(dom, cod, m) == [dom |-> dom, cod |-> cod, m |-> m]
GateOn(m, n, ctrls, tgt, N) ==  \* 1-qubit m at tgt, controls ctrls (1-based), N wires
  LET D == P2(N)
      bt(x, i) == (x \div P2(N - i)) % 2
      flip(x) == IF bt(x, tgt) = 1 THEN x - P2(N - tgt) ELSE x + P2(N - tgt)
      e == Scale(Mat(1, 1, 0, <<A1>>), m.k).v[1]
  IN  Mat(D, D, m.k, [k \in 1..(D * D) |->
        LET i == (k - 1) \div D
            j == (k - 1) % D
        IN  IF \E x \in ctrls : bt(i, x) = 0 THEN IF i = j THEN e ELSE A0
            ELSE IF j = i \/ j = flip(i) THEN At(m, bt(i, tgt), bt(j, tgt)) ELSE A0])
Copy(n, o) == \* the qubit spider |0..0><0..0| + |1..1><1..1|
  Mat(P2(n), P2(o), 0, [k \in 1..(P2(n) * P2(o)) |->
     LET i == (k - 1) \div P2(o)
         j == (k - 1) % P2(o)
     IN  (IF i = 0 /\ j = 0 THEN 1 ELSE 0) + (IF i = P2(n) - 1 /\ j = P2(o) - 1 THEN 1 ELSE 0)])
SpiderQ(n, o) == LET m == Copy(n, o) IN [m EXCEPT !.v = [i \in 1..Len(m.v) |-> <<m.v[i], 0, 0, 0>>]]
CupM(n) == \* n qubits against their mirror image
  Mat(P2(2 * n), 1, 0, [k \in 1..P2(2 * n) |->
     IF MirrorIdx((k - 1) \div P2(n), [i \in 1..n |-> 2]) = (k - 1) % P2(n) THEN A1 ELSE A0])
Qs(n) == [i \in 1..n |-> "q"]
Lift(m, n, o, mixed) == IF mixed THEN Double(m, n, o) ELSE m
Want(e, P) ==
  LET x == P[e.a[1]]
      y == P[e.a[2]]
      mx == e.mixed
  IN
  CASE e.op = "given" -> Entry(e.d.dom, e.d.cod, Value(e.d, mx))
    [] e.op = "same" -> x
    [] e.op = "dagger" -> Entry(x.cod, x.dom, MDag(x.m))
    [] e.op = "rotate" -> IF e.a[2] % 2 = 0 THEN x
          ELSE Entry(Rev(x.dom), Rev(x.cod), MRot(x.m, Dims(x.dom, mx), Dims(x.cod, mx)))
    [] e.op = "then" -> Entry(x.dom, y.cod, MMul(x.m, y.m))
    [] e.op = "tensor" -> Entry(x.dom \o y.dom, x.cod \o y.cod, MKron(x.m, y.m))
    [] e.op = "circuital" -> Entry(<<>>, SelectSeq(x.cod, LAMBDA w : w = "b"),
                                   InitDiscard(x.m, x.dom, x.cod, TRUE))
    [] e.op = "apply" ->   \* e.a = <<i, gate box, controls, target>>, 1-based qubits
          Entry(x.dom, x.cod, MMul(x.m, Lift(GateOn(PureMat(e.a[2]), 1, {e.a[3][i] : i \in 1..Len(e.a[3])},
                                                    e.a[4], Len(x.cod)), Len(x.cod), Len(x.cod), mx)))
    [] e.op = "spider" -> Entry(Qs(e.a[1]), Qs(e.a[2]), Lift(SpiderQ(e.a[1], e.a[2]), e.a[1], e.a[2], mx))
    [] e.op = "cups" -> Entry(Qs(2 * e.a[1]), <<>>, Lift(CupM(e.a[1]), 2 * e.a[1], 0, mx))
    [] e.op = "caps" -> Entry(<<>>, Qs(2 * e.a[1]), Lift(MTrans(CupM(e.a[1])), 0, 2 * e.a[1], mx))
Bad(e, x) ==
  IF ~e.ok THEN {"refused"}
  ELSE (IF e.dom = x.dom /\ e.cod = x.cod THEN {} ELSE {"dom-cod"})
    \cup (IF e.twos THEN {} ELSE {"shape"})
    \cup (IF e.op = "circuital" /\ ~e.circuital THEN {"not-circuital"} ELSE {})
    \cup (IF e.v = <<>> /\ e.noval THEN {} ELSE
          IF e.mixed THEN IF DoubledClose(x.m, x.dom, x.cod, e.v) THEN {} ELSE {"value"}
          ELSE IF MatClose(x.m, e.v) THEN {} ELSE {"value"})
Init == c \in 1..Len(Cases) /\ l = 1 /\ pool = <<>>
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               x == Want(e, pool)
           IN  /\ \A b \in Bad(e, x) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o (IF e.mixed THEN "*:" ELSE ":") \o b \o "|event " \o ToString(l))
               /\ pool' = Append(pool, x)
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, pool>>
=============================================================================
