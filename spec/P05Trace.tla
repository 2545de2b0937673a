------------------------------ MODULE P05Trace ------------------------------
(***************************************************************************)
(* A pool of tensor diagrams and their exact values.  Each event applies   *)
(* an operation to pool members and reports what evaluating the result in  *)
(* the code gave; the value prescribed follows from the operands' values.  *)
(***************************************************************************)
EXTENDS Tensors, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l, pool  \* pool: sequence of [dom, cod, m]
Entry(dom, cod, m) == [dom |-> dom, cod |-> cod, m |-> m]
CupsM(t) == \* t (x) Rev(t) -> 1, nested pairing
  Mat(Prod(t) * Prod(t), 1, [k \in 1..(Prod(t) * Prod(t)) |->
     IF MirrorIdx((k - 1) \div Prod(t), t) = (k - 1) % Prod(t) THEN G1 ELSE G0])
Want(e, P) ==
  CASE e.op = "given" -> Entry(e.d.dom, e.d.cod, Value(e.d))
    [] e.op = "same" -> P[e.a[1]]      \* snake / normal form / copies
    [] e.op = "dagger" -> Entry(P[e.a[1]].cod, P[e.a[1]].dom, MDag(P[e.a[1]].m))
    [] e.op = "rotate" -> IF e.a[2] % 2 = 0 THEN P[e.a[1]]
          ELSE Entry(Rev(P[e.a[1]].dom), Rev(P[e.a[1]].cod), MRot(P[e.a[1]].m, P[e.a[1]].dom, P[e.a[1]].cod))
    [] e.op = "transpose" ->
          LET x == P[e.a[1]]
              t == MTrans(x.m)
              rd == Rev(x.cod)
              rc == Rev(x.dom)
          IN  Entry(rd, rc, Mat(t.r, t.c, [k \in 1..(t.r * t.c) |->
                 At(t, MirrorIdx((k - 1) \div t.c, rd), MirrorIdx((k - 1) % t.c, rc))]))
    [] e.op = "then" -> Entry(P[e.a[1]].dom, P[e.a[2]].cod, MMul(P[e.a[1]].m, P[e.a[2]].m))
    [] e.op = "tensor" -> Entry(P[e.a[1]].dom \o P[e.a[2]].dom, P[e.a[1]].cod \o P[e.a[2]].cod,
                                MKron(P[e.a[1]].m, P[e.a[2]].m))
    [] e.op = "cups" -> Entry(e.a[1] \o Rev(e.a[1]), <<>>, CupsM(e.a[1]))
    [] e.op = "caps" -> Entry(<<>>, e.a[1] \o Rev(e.a[1]), MTrans(CupsM(e.a[1])))
    [] e.op = "spider" ->  \* complex type: product of spiders, copies grouped
          LET t == e.a[1]
              n == e.a[2]
              k2 == e.a[3]
              T == Prod(t)
              rep(a, m) == IF m = 0 THEN 0 ELSE a * ((T ^ m - 1) \div (T - 1))
          IN  Entry([i \in 1..(Len(t) * n) |-> t[((i - 1) % Len(t)) + 1]],
                    [i \in 1..(Len(t) * k2) |-> t[((i - 1) % Len(t)) + 1]],
                    Mat(T ^ n, T ^ k2, [k \in 1..((T ^ n) * (T ^ k2)) |->
                      IF \E a \in 0..(T - 1) : /\ (k - 1) \div (T ^ k2) = rep(a, n)
                                               /\ (k - 1) % (T ^ k2) = rep(a, k2)
                      THEN G1 ELSE G0]))
    [] e.op = "swap" ->
          LET A == Prod(e.a[1])
              B == Prod(e.a[2])
          IN  Entry(e.a[1] \o e.a[2], e.a[2] \o e.a[1],
                Mat(A * B, A * B, [k \in 1..(A * B * A * B) |->
                  LET i == (k - 1) \div (A * B)
                      j == (k - 1) % (A * B)
                  IN  IF i \div B = j % A /\ i % B = j \div A THEN G1 ELSE G0]))
Bad(e, x) ==
  IF ~e.ok THEN {"refused"}
  ELSE (IF e.dom = x.dom /\ e.cod = x.cod THEN {} ELSE {"dom-cod"})
    \cup (IF e.shape = x.dom \o x.cod THEN {} ELSE {"shape"})
    \cup (IF e.v = x.m.v THEN {} ELSE {"value"})
Init == c \in 1..Len(Cases) /\ l = 1 /\ pool = <<>>
Next == /\ l <= Len(Cases[c].events)
        /\ LET e == Cases[c].events[l]
               x == Want(e, pool)
           IN  /\ \A b \in Bad(e, x) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o e.op \o e.be \o ":" \o b \o "|event " \o ToString(l))
               /\ pool' = Append(pool, x)
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l, pool>>
=============================================================================
