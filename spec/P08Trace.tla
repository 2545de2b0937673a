------------------------------ MODULE P08Trace ------------------------------
(* Circuits handed to PennyLane.  Each event carries the circuit (with the *)
(* values of its symbols put in) and the answer of running its PennyLane   *)
(* version; the specification computes the answer from the definitions.    *)
(*   state: the amplitudes; probs: their squared moduli; mixed: with       *)
(*   discards, every open wire is discarded and only the weight remains;   *)
(*   modelprobs/modelstate: a model's normalised answers (scale 10^4).     *)
EXTENDS Quantum, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, l
(* zeros are fed into the inputs: the first row *)
Amps(d) == LET m == Value(d, FALSE) IN Mat(1, m.c, m.k, SubSeq(m.v, 1, m.c))
Probs(d) == LET m == Amps(d) IN Norm(Mat(1, m.c, 2 * m.k, [i \in 1..m.c |-> AMul(m.v[i], AConj(m.v[i]))]))
Weight(d) == InitDiscard(Value(d, TRUE), d.dom, d.cod, TRUE)
Total(m) == Norm(Mat(1, 1, m.k, <<FoldLeft(AAdd, A0, m.v)>>))
(* n * total = exact, with n in 10^-4 and exact in 10^-5 units *)
RatioClose(n, tot, x) ==   \* n: <<re, im>> 10^4, tot: 10^5 real, x: <<re, im>> 10^5
  LET t3 == tot \div 100
      w(i) == (n[i] * t3) \div 1000 - (x[i] \div 10)
  IN  Abs(w(1)) <= 12 + Abs(n[1]) \div 800 /\ Abs(w(2)) <= 12 + Abs(n[2]) \div 800
NormalisedBy(m, tot, v) ==
  /\ Len(v) = m.c
  /\ \A i \in 1..m.c : RatioClose(v[i], Fixed(tot.v[1], tot.k)[1], Fixed(m.v[i], m.k))
(* the pieces with a PennyLane counterpart *)
RECURSIVE Inner(_)
Inner(b) == IF b.k = "ctrl" THEN Inner(b.f[1]) ELSE b
Expressible(b) ==
  CASE b.k = "gate" -> TRUE
    [] b.k = "dag" -> b.f[1].k = "gate"
    [] b.k = "ctrl" -> LET i == Inner(b) IN
         /\ b.f[1].k # "ctrl"
         /\ \/ i.k = "rot"
            \/ i.k = "gate" /\ i.z % 2 = 0 /\ i.g \in {"X", "Y", "Z"}
    [] b.k \in {"rot", "ket", "bra", "discard", "scalar"} -> TRUE
    [] b.k = "swap" -> b.d = <<"q", "q">>
    [] OTHER -> FALSE
HasQubit(d) == Len(d.dom) > 0 \/ \E i \in 1..Len(d.layers) : d.layers[i].b.k = "ket"
Bad(e) ==
  IF ~e.ok THEN IF HasQubit(e.d) /\ (\A i \in 1..Len(e.d.layers) : Expressible(e.d.layers[i].b)) THEN {e.op \o ":refused"} ELSE {}
  ELSE CASE e.op = "state" -> IF MatClose(Amps(e.d), e.v) THEN {} ELSE {"state:value"}
         [] e.op = "probs" -> IF MatClose(Probs(e.d), e.v) THEN {} ELSE {"probs:value"}
         [] e.op = "mixed" -> IF MatClose(Weight(e.d), e.v) THEN {} ELSE {"mixed:value"}
         [] e.op = "modelprobs" ->
              LET p == Probs(e.d)
                  t == Total(p)
              IN  IF Fixed(t.v[1], t.k)[1] < 5000 \/ NormalisedBy(p, t, e.v) THEN {} ELSE {"modelprobs:value"}
         [] e.op = "modelstate" ->
              LET a == Amps(e.d)
                  t == Total(Probs(e.d))
              IN  IF Fixed(t.v[1], t.k)[1] < 5000 \/ NormalisedBy(a, t, e.v) THEN {} ELSE {"modelstate:value"}
Init == c \in 1..Len(Cases) /\ l = 1
Next == /\ l <= Len(Cases[c].events)
        /\ \A b \in Bad(Cases[c].events[l]) : PrintT("@@FAIL|" \o ToString(c) \o "|" \o b \o "|event " \o ToString(l))
        /\ l' = l + 1
        /\ UNCHANGED c
        /\ IF l = Len(Cases[c].events) THEN PrintT("@@DONE|" \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
